//! C06: peak heap while decoding is at most (type constant) * length + small constant, on every path.
//! Type constant: 16 bytes per byte and in-memory element byte (see types::M::heap); requests above the
//! engine's limit (16 MiB, symbolic sizes included) are reported as soon as they are feasible.
use crate::sx;
use crate::types::*;
use ssz::{BitList, BitVector};
use typenum::{U1048576, U131072};
fn one<T: M>(b: &[u8]) {
    let before = sx::heap_live();
    sx::heap_reset();
    sx::allow_panic(true); // C05's business
    let r = T::from_ssz_bytes(b);
    sx::allow_panic(false);
    let peak = sx::heap_peak() - before;
    let max = sx::heap_max();
    sx::cover(if r.is_ok() { 1 } else { 0 });
    if r.is_ok() && peak > 0 {
        // (rejections build error texts, which the engine does not)
        sx::cover(2);
    }
    sx::out_bool(r.is_ok());
    let bound = 16 * T::heap() * b.len() + 1024 + 32 * T::heap();
    sx::check(max <= bound, "a single heap request is not bounded linearly by the input length");
    sx::check(peak <= bound, "peak heap use is not bounded linearly by the input length");
    drop(r);
}
struct V;
impl Visitor for V {
    fn go<T: M>(&self, n: usize, _d: usize) {
        let ls = lengths::<T>(if sx::THOROUGH || n <= 16 { n } else { 16 });
        let len = ls[sx::split(ls.len())];
        one::<T>(&sx::bytes(len))
    }
}
/// long bodies: the first word is symbolic (any impossible count) or one of a few possible counts
struct L;
impl Visitor for L {
    fn go<T: M>(&self, n: usize, _d: usize) {
        if crate::model::fixed(&T::schema()).is_some() {
            return;
        }
        let _ = n;
        let len = [64, 252, if sx::THOROUGH { 4096 } else { 1024 }][sx::split(3)];
        let pat = sx::split(3);
        let mut b = vec![0u8; len];
        for i in 0..len / 4 {
            let w: usize = match pat {
                0 => len,
                1 => 0,
                _ => 4 * (i + 1),
            };
            for k in 0..4 {
                b[4 * i + k] = (w >> (8 * k)) as u8;
            }
        }
        use crate::model::{fixed, S};
        let plain = match T::schema() {
            S::Set(e) => fixed(&e).is_some(),
            S::Map(k, v) => fixed(&k).is_some() && fixed(&v).is_some(),
            _ => false,
        };
        // (no offsets in lists of fixed-size entries: symbolic keys would only be sorted)
        let w = match if plain { 1 + sx::split(2) } else { sx::split(6) } {
            0 => {
                // any count that cannot be present
                let w = sx::u32();
                sx::assume(w as usize > len);
                w
            }
            1 => 4,
            2 => 8,
            3 => len as u32 / 8 * 4,
            4 => len as u32 - 4,
            _ => len as u32,
        };
        b[..4].copy_from_slice(&w.to_le_bytes());
        one::<T>(&b)
    }
}
struct N(u32);
impl Big for N {
    fn go<T: M>(&self, d: usize) {
        one::<T>(&near::<T>(self.0, d, if sx::THOROUGH { 60 } else { 24 }))
    }
}
/// long valid encodings (concrete), so that super-linear growth shows
struct C(u32);
impl Big for C {
    fn go<T: M>(&self, d: usize) {
        sx::mode(2, self.0);
        let v = T::sym(d * 8);
        let e = crate::model::encode(&T::schema(), &v.val());
        sx::mode(0, 0);
        one::<T>(&e)
    }
}
/// capacities far beyond the input: bits at both ends of short inputs symbolic
fn cap<T: M>() {
    let ls = [0, 1, 2, 3, 5, 9, 16, 64, 128, 129, 300];
    let n = ls[sx::split(ls.len())];
    let mut b = vec![0u8; n];
    for i in 0..n {
        if i < 5 || i + 2 >= n {
            b[i] = sx::u8();
        }
    }
    if n > 9 && matches!(T::schema(), crate::model::S::List(_)) {
        // one item, or several (each with its own length)
        let k = [4usize, 8, n / 4 * 4][sx::split(3)];
        let items = k / 4;
        for i in 0..items.min(n / 4) {
            let o = k + (n - k) * i / items;
            b[4 * i..4 * i + 4].copy_from_slice(&(o as u32).to_le_bytes());
        }
    }
    one::<T>(&b)
}
const SEEDS: usize = if sx::THOROUGH { 4 } else { 1 };
pub fn run() {
    match sx::split(9) {
        0 => family(sx::split(NFAM), &V),
        1 => family_maps(sx::split(NMAPS), &V),
        2 => big(sx::split(NBIG), &N(sx::SEED + sx::split(SEEDS) as u32)),
        3 => big_maps(sx::split(NBIGMAPS), &N(sx::SEED + sx::split(SEEDS) as u32)),
        4 => family(sx::split(NFAM), &L),
        5 => family_maps(sx::split(NMAPS), &L),
        6 => big(sx::split(NBIG), &C(sx::SEED)),
        7 => big_maps(sx::split(NBIGMAPS), &C(sx::SEED)),
        _ => match sx::split(6) {
            0 => cap::<BitList<U131072>>(),
            1 => cap::<BitList<U1048576>>(),
            2 => cap::<BitVector<U131072>>(),
            3 => cap::<Vec<BitList<U131072>>>(),
            4 => cap::<(u8, BitList<U131072>, Vec<u8>)>(),
            _ => cap::<Option<BitVector<U131072>>>(),
        },
    }
}
