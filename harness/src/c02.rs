//! C02: whatever decodes re-encodes to exactly the input.
use crate::sx;
use crate::types::*;
fn one<T: M>(b: &[u8]) {
    sx::allow_panic(true); // C05's business
    let r = T::from_ssz_bytes(b);
    sx::allow_panic(false);
    match r {
        Ok(v) => {
            sx::cover(1);
            let e = v.as_ssz_bytes();
            sx::check(crate::model::beq(&e, b), "accepted bytes do not re-encode to themselves");
            sx::out(&e);
        }
        Err(_) => sx::cover(0),
    }
}
struct V;
impl Visitor for V {
    fn go<T: M>(&self, n: usize, _d: usize) {
        let ls = lengths::<T>(n);
        let len = ls[sx::split(ls.len())];
        one::<T>(&sx::bytes(len))
    }
}
/// the same type as a middle field of a container
struct W;
impl Visitor for W {
    fn go<T: M>(&self, n: usize, _d: usize) {
        let ls = wrapped_lengths::<T>(n);
        let len = ls[sx::split(ls.len())];
        one::<(u8, T, Vec<u8>)>(&sx::bytes(len))
    }
}
struct N(u32);
impl Big for N {
    fn go<T: M>(&self, d: usize) {
        one::<T>(&near::<T>(self.0, d, 60))
    }
}
const SEEDS: usize = if sx::THOROUGH { 6 } else { 1 };
/// long lists
struct L;
impl Long for L {
    fn go<T: M>(&self, n: usize, _: bool) {
        one::<Vec<T>>(&long_bytes::<T>(n, sx::SEED))
    }
}
pub fn run() {
    match sx::split(4) {
        0 => family(sx::split(NFAM), &V),
        1 => big(sx::split(NBIG), &N(sx::SEED + sx::split(SEEDS) as u32)),
        2 => family(sx::split(NFAM), &W),
        _ => long(sx::split(NLONG), &L),
    }
}
