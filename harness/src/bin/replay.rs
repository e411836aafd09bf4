//! Native replay: each stdin line is a draw string; prints `how|hash|covers|fails`.
use harness::sx::imp::*;
use std::io::BufRead;
fn parse(s: &str) -> std::collections::VecDeque<Draw> {
    s.split_whitespace()
        .map(|t| {
            let (k, v) = t.split_at(1);
            if k == "c" {
                Draw::C(v.parse().unwrap())
            } else {
                Draw::S((0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect())
            }
        })
        .collect()
}
fn main() {
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(real).unwrap();
    t.join().unwrap();
}
fn real() {
    let verbose = std::env::args().nth(1).as_deref() == Some("-v");
    if !verbose {
        std::panic::set_hook(Box::new(|_| {}));
    }
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let draws = parse(&line);
        REC.with(|r| {
            *r.borrow_mut() = Rec { draws, hash: 0xcbf29ce484222325, ..Default::default() };
        });
        let r = std::panic::catch_unwind(harness::run);
        REC.with(|rec| {
            let rec = rec.borrow();
            let how = match (&r, &rec.mismatch) {
                (_, Some(m)) => format!("mismatch({m})"),
                (Ok(()), _) if !rec.draws.is_empty() => "mismatch(draws left)".into(),
                (Ok(()), _) => "ok".to_string(),
                (Err(e), _) => {
                    if verbose {
                        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                        eprintln!("panic payload: {m:?}");
                    }
                    "panic".to_string()
                }
            };
            let cov: Vec<String> = rec.covers.iter().map(|c| c.to_string()).collect();
            println!("{how}|{:016x}|{}|{}", rec.hash, cov.join(","), rec.fails.join(" ;; "));
        });
    }
}
