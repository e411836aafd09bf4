//! C04: decoding succeeds exactly on the valid serializations and returns the specified value.
use crate::model;
use crate::sx;
use crate::types::*;
fn strict<T: M>(b: &[u8]) {
    let want = model::decode(&T::schema(), b);
    // a panic on an invalid input is not an acceptance (it is C05's business)
    sx::allow_panic(want.is_none());
    let got = T::from_ssz_bytes(b);
    sx::allow_panic(false);
    match (want, got) {
        (Some(w), Ok(v)) => {
            sx::cover(1);
            let v = v.val();
            sx::check(model::eq(&w, &v), "decoded value is not the one the specification assigns");
            model::out(&v);
        }
        (None, Err(_)) => sx::cover(0),
        (Some(_), Err(_)) => sx::check(false, "a valid serialization is rejected"),
        (None, Ok(_)) => sx::check(false, "an invalid serialization is accepted"),
    }
}
/// maps and sets: only "what is accepted is a well-formed entry list and the result is the collection of its entries"
fn forward<T: M>(b: &[u8]) {
    let want = model::decode(&T::schema(), b).and_then(|w| model::collect(&T::schema(), w));
    sx::allow_panic(true);
    let got = T::from_ssz_bytes(b);
    sx::allow_panic(false);
    match (want, got) {
        (Some(w), Ok(v)) => {
            sx::cover(1);
            let v = v.val();
            sx::check(model::eq(&w, &v), "decoded collection is not the collection of the listed entries");
            model::out(&v);
        }
        (_, Err(_)) => sx::cover(0),
        (None, Ok(_)) => sx::check(false, "a malformed entry list is accepted"),
    }
}
struct V;
impl Visitor for V {
    fn go<T: M>(&self, n: usize, _d: usize) {
        let ls = lengths::<T>(cap(n));
        let len = ls[sx::split(ls.len())];
        strict::<T>(&sx::bytes(len))
    }
}
/// the same type as a middle field of a container
struct W;
impl Visitor for W {
    fn go<T: M>(&self, n: usize, _d: usize) {
        let ls = wrapped_lengths::<T>(n);
        let len = ls[sx::split(ls.len())];
        strict::<(u8, T, Vec<u8>)>(&sx::bytes(len))
    }
}
struct F;
impl Visitor for F {
    fn go<T: M>(&self, n: usize, _d: usize) {
        let len = sx::split(cap(n) + 1);
        forward::<T>(&sx::bytes(len))
    }
}
struct N(u32, bool);
impl Big for N {
    fn go<T: M>(&self, d: usize) {
        let b = near::<T>(self.0, d, NEARLEN);
        if self.1 {
            forward::<T>(&b)
        } else {
            strict::<T>(&b)
        }
    }
}
const NEARLEN: usize = if sx::THOROUGH { 90 } else { 40 };
pub fn cap(n: usize) -> usize {
    if sx::THOROUGH || n <= 20 {
        n
    } else {
        20
    }
}
const SEEDS: usize = if sx::THOROUGH { 6 } else { 1 };
/// long lists
struct L;
impl Long for L {
    fn go<T: M>(&self, n: usize, _: bool) {
        strict::<Vec<T>>(&long_bytes::<T>(n, sx::SEED))
    }
}
pub fn run() {
    match sx::split(6) {
        0 => family(sx::split(NFAM), &V),
        1 => family_maps(sx::split(NMAPS), &F),
        2 => big(sx::split(NBIG), &N(sx::SEED + sx::split(SEEDS) as u32, false)),
        3 => big_maps(sx::split(NBIGMAPS), &N(sx::SEED + sx::split(SEEDS) as u32, true)),
        4 => family(sx::split(NFAM), &W),
        _ => long(sx::split(NLONG), &L),
    }
}
