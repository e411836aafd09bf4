mod exec;
mod expr;
mod llvm;
mod solver;
use exec::*;
use std::collections::VecDeque;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Q {
    jobs: VecDeque<Vec<u64>>,
    active: usize,
    stop: bool,
}

fn main() {
    let mut args = std::collections::HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().expect("value");
        args.insert(k.trim_start_matches('-').to_string(), v);
    }
    let get = |k: &str, d: &str| args.get(k).cloned().unwrap_or(d.to_string());
    let num = |k: &str, d: u64| args.get(k).map(|s| s.parse::<u64>().expect(k)).unwrap_or(d);
    let t0 = Instant::now();
    let src: Vec<String> = get("src", "/repo/").split(',').map(|s| s.to_string()).collect();
    let prog = match llvm::load(&get("llvm", ""), &get("bc", ""), src) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("load: {e}");
            std::process::exit(3);
        }
    };
    let mut kinds: Vec<K> = prog.funcs.iter().map(classify).collect();
    if get("real-fmt", "0") == "1" {
        // execute alloc::fmt::format as it is instead of returning the empty string
        kinds.iter_mut().filter(|k| **k == K::Fmt).for_each(|k| *k = K::Body);
    }
    let load_s = t0.elapsed().as_secs_f64();
    let entry = match prog.fidx.get(&get("entry", "sx_main")) {
        Some(e) => *e,
        None => {
            eprintln!("entry missing");
            std::process::exit(3);
        }
    };
    if args.contains_key("decls") {
        for (f, k) in prog.funcs.iter().zip(&kinds) {
            if *k != K::Body {
                println!("{:?} {}", k, f.name);
            }
        }
    }
    let threads = num("threads", 8) as usize;
    let budget = num("budget", 600);
    let cfg = Cfg {
        max_steps: num("max-steps", 3_000_000),
        max_alloc: num("max-alloc", 1 << 24),
        samples_per_job: num("samples", 20) as usize,
        max_viol: num("max-viol", 6) as usize,
        merge: std::env::var("SX_NOMERGE").is_err(),
        ignore: get("ignore", "").split(',').map(|s| s.to_string()).collect(),
    };
    let z3 = get("z3", "/usr/lib/x86_64-linux-gnu/libz3.so");
    let qt = num("qtimeout", 60_000) as u32;
    let re = num("reset-every", 1) as u32;
    let dump = args.get("dump").cloned();
    let dump_every = num("dump-every", 0);
    let q = Mutex::new(Q { jobs: VecDeque::from(vec![parse_prefix(&get("prefix", ""))]), active: 0, stop: false });
    let cv = Condvar::new();
    let (prog_r, kinds_r, q_r, cv_r, cfg_r) = (&prog, &kinds, &q, &cv, &cfg);
    let mut outs: Vec<WOut> = vec![];
    let mem_mb = num("mem-mb", 20_000);
    let (z3m, done) = (z3.clone(), std::sync::atomic::AtomicBool::new(false));
    let done_r = &done;
    let over_mem = std::sync::atomic::AtomicBool::new(false);
    let over_r = &over_mem;
    let end = Instant::now() + Duration::from_secs(budget);
    std::thread::scope(|s| {
        let mut hs = vec![];
        s.spawn(move || {
            let mut hit = false;
            while !done_r.load(std::sync::atomic::Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|t| t.split(' ').nth(1)?.parse::<u64>().ok()).unwrap_or(0) / 256;
                let m = rss > mem_mb;
                if m {
                    over_r.store(true, std::sync::atomic::Ordering::Relaxed);
                }
                if m || hit || Instant::now() > end {
                    hit = true;
                    solver::interrupt_all(&z3m);
                }
            }
        });
        for tid in 0..threads {
            let z3 = z3.clone();
            let dump = dump.clone();
            let b = std::thread::Builder::new().stack_size(512 << 20);
            hs.push(
                b.spawn_scoped(s, move || {
                    let mut so = solver::Solver::new(&z3, qt);
                    so.tid = tid;
                    so.reset_every = re;
                    so.dump_dir = dump;
                    so.dump_every = dump_every;
                    let ver = so.version();
                    let mut ex = Exec::new(prog_r, kinds_r, so, cfg_r.clone());
                    let mut times: Vec<(Vec<u64>, f64, u64)> = vec![];
                    let mut open_jobs: Vec<Vec<u64>> = vec![];
                    loop {
                        let job = {
                            let mut g = q_r.lock().unwrap();
                            loop {
                                if g.stop {
                                    break None;
                                }
                                if let Some(j) = g.jobs.pop_front() {
                                    g.active += 1;
                                    break Some(j);
                                }
                                if g.active == 0 {
                                    break None;
                                }
                                g = cv_r.wait(g).unwrap();
                            }
                        };
                        let Some(job) = job else { break };
                        let t = Instant::now();
                        let p0 = ex.st.paths;
                        let open = |s: &Stats| s.incomplete.len() as u64 + s.more_incomplete + s.cut.values().map(|x| *x as u64).sum::<u64>();
                        let o0 = open(&ex.st);
                        ex.run_job(entry, job.clone());
                        if open(&ex.st) != o0 || solver::stopped() {
                            open_jobs.push(job.clone());
                        }
                        let spawned = std::mem::take(&mut ex.new_jobs);
                        times.push((job, t.elapsed().as_secs_f64(), ex.st.paths - p0));
                        let mut g = q_r.lock().unwrap();
                        g.active -= 1;
                        for j in spawned {
                            g.jobs.push_back(j);
                        }
                        if ex.viols.len() >= cfg_r.max_viol || solver::stopped() {
                            if !g.jobs.is_empty() && ex.viols.is_empty() {
                                ex.st.incomplete.push(format!("budget: {} jobs not started", g.jobs.len()));
                            }
                            open_jobs.extend(g.jobs.drain(..));
                            g.stop = true;
                        }
                        cv_r.notify_all();
                    }
                    cv_r.notify_all();
                    WOut {
                        st: ex.st.clone(),
                        ss: ex.s.st.clone(),
                        hit: ex.hit.clone(),
                        viols: ex.viols.clone(),
                        samples: std::mem::take(&mut ex.samples),
                        times,
                        open_jobs,
                        nodes: ex.c.nodes.len() as u64,
                        ver,
                    }
                })
                .unwrap(),
            );
        }
        for h in hs {
            outs.push(h.join().expect("worker"));
        }
        done.store(true, std::sync::atomic::Ordering::Relaxed);
    });
    // ------------------------------------------------------------ report
    let mut st = Stats::default();
    let mut ss = solver::SStats::default();
    let mut hit = vec![false; prog.lines.len()];
    let mut viols = vec![];
    let mut samples = vec![];
    let mut times = vec![];
    let mut open_jobs = vec![];
    for o in outs.iter_mut() {
        open_jobs.append(&mut o.open_jobs);
        st.jobs += o.st.jobs;
        st.paths += o.st.paths;
        st.killed += o.st.killed;
        st.panicked += o.st.panicked;
        st.steps += o.st.steps;
        st.sym_branches += o.st.sym_branches;
        st.forks += o.st.forks;
        st.merges += o.st.merges;
        st.concs += o.st.concs;
        st.checks_trivial += o.st.checks_trivial;
        st.checks_solved += o.st.checks_solved;
        st.mem_checks += o.st.mem_checks;
        st.max_depth = st.max_depth.max(o.st.max_depth);
        st.max_syms = st.max_syms.max(o.st.max_syms);
        st.incomplete.append(&mut o.st.incomplete);
        st.more_incomplete += o.st.more_incomplete;
        for (k, v) in &o.st.fork_sites {
            *st.fork_sites.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.st.cut {
            *st.cut.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.st.covers {
            *st.covers.entry(*k).or_insert(0) += v;
        }
        ss.queries += o.ss.queries;
        ss.sat += o.ss.sat;
        ss.unsat += o.ss.unsat;
        ss.unknown += o.ss.unknown;
        ss.cache_hits += o.ss.cache_hits;
        ss.time_s += o.ss.time_s;
        ss.max_s = ss.max_s.max(o.ss.max_s);
        for (i, h) in o.hit.iter().enumerate() {
            hit[i] |= *h;
        }
        viols.append(&mut o.viols);
        samples.append(&mut o.samples);
        times.append(&mut o.times);
    }
    times.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
    if over_mem.load(std::sync::atomic::Ordering::Relaxed) {
        st.incomplete.insert(0, "memory limit reached".into());
    }
    let mut fs: Vec<_> = st.fork_sites.iter().collect();
    fs.sort_by(|a, b| b.1.cmp(a.1));
    for (k, v) in fs.iter().take(20) {
        println!("{v:8} {k}");
    }
    let mut s = String::new();
    use std::fmt::Write;
    let _ = writeln!(s, "{{");
    let _ = writeln!(s, "\"z3\": {}, \"load_s\": {:.3}, \"wall_s\": {:.3}, \"threads\": {},", esc(&outs[0].ver), load_s, t0.elapsed().as_secs_f64(), threads);
    let _ = writeln!(
        s,
        "\"jobs\": {}, \"paths\": {}, \"infeasible\": {}, \"panicked\": {}, \"steps\": {}, \"sym_branches\": {}, \"forks\": {}, \"merges\": {}, \"concretisations\": {}, \"checks_trivial\": {}, \"checks_solved\": {}, \"mem_checks\": {}, \"max_depth\": {}, \"max_syms\": {},",
        st.jobs, st.paths, st.killed, st.panicked, st.steps, st.sym_branches, st.forks, st.merges, st.concs, st.checks_trivial, st.checks_solved, st.mem_checks, st.max_depth, st.max_syms
    );
    let _ = writeln!(
        s,
        "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3},",
        ss.queries, ss.sat, ss.unsat, ss.unknown, ss.cache_hits, ss.time_s, ss.max_s
    );
    let inc: Vec<String> = st.incomplete.iter().take(40).map(|x| esc(x)).collect();
    let _ = writeln!(s, "\"incomplete_count\": {}, \"incomplete\": [{}],", st.incomplete.len() as u64 + st.more_incomplete, inc.join(", "));
    open_jobs.sort();
    open_jobs.dedup();
    let _ = writeln!(s, "\"open_jobs\": {:?},", open_jobs);
    let cut: Vec<String> = st.cut.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    let _ = writeln!(s, "\"cut\": {{{}}},", cut.join(", "));
    let mut cv: Vec<_> = st.covers.iter().collect();
    cv.sort();
    let cv: Vec<String> = cv.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    let _ = writeln!(s, "\"covers\": {{{}}},", cv.join(", "));
    let vs: Vec<String> = viols
        .iter()
        .map(|v: &Violation| {
            let tr: Vec<String> = v.trace.iter().take(12).map(|t| esc(t)).collect();
            format!("{{\"kind\": {}, \"msg\": {}, \"draws\": {}, \"trace\": [{}]}}", esc(&v.kind), esc(&v.msg), esc(&v.draws), tr.join(", "))
        })
        .collect();
    let _ = writeln!(s, "\"violations\": [{}],", vs.join(",\n"));
    let ls: Vec<String> = (1..hit.len()).filter(|i| hit[*i]).map(|i| esc(&format!("{}:{}", prog.lines[i].0, prog.lines[i].1))).collect();
    let us: Vec<String> = (1..hit.len()).filter(|i| !hit[*i]).map(|i| esc(&format!("{}:{}", prog.lines[i].0, prog.lines[i].1))).collect();
    let _ = writeln!(s, "\"lines_hit\": [{}],", ls.join(","));
    let _ = writeln!(s, "\"lines_missed\": [{}],", us.join(","));
    let ts: Vec<String> = times.iter().take(num("times", 12) as usize).map(|(p, t, n)| format!("[{:?}, {:.2}, {}]", p, t, n)).collect();
    let _ = writeln!(s, "\"slow_jobs\": [{}]", ts.join(", "));
    let _ = writeln!(s, "}}");
    std::fs::write(get("out", "/dev/stdout"), s).unwrap();
    if let Some(f) = args.get("samples-out") {
        std::fs::write(f, samples.join("\n") + "\n").unwrap();
    }
}

struct WOut {
    st: Stats,
    ss: solver::SStats,
    hit: Vec<bool>,
    viols: Vec<Violation>,
    samples: Vec<String>,
    times: Vec<(Vec<u64>, f64, u64)>,
    /// jobs which were not explored completely
    open_jobs: Vec<Vec<u64>>,
    #[allow(dead_code)]
    nodes: u64,
    ver: String,
}

fn parse_prefix(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
