//! C01: decoding an encoding returns the original value.
use crate::model;
use crate::sx;
use crate::types::*;
fn one<T: M>(v: T) {
    let e = v.as_ssz_bytes();
    sx::out(&e);
    match T::from_ssz_bytes(&e) {
        Ok(w) => {
            sx::cover(1);
            sx::check(model::eq(&v.val(), &w.val()), "decoded value differs from the encoded one");
            sx::check(v == w, "decoded value is not equal to the encoded one");
        }
        Err(_) => sx::check(false, "the encoding of a value does not decode"),
    }
}
struct V;
impl Visitor for V {
    fn go<T: M>(&self, _n: usize, d: usize) {
        one(T::sym(d))
    }
}
/// the same type as a field behind another one: unaligned and inside a container
struct W;
impl Visitor for W {
    fn go<T: M>(&self, _n: usize, d: usize) {
        one((sx::u8(), T::sym(d), Vec::<u8>::sym(1)))
    }
}
struct B(u32);
impl Big for B {
    fn go<T: M>(&self, d: usize) {
        sx::mode(1, self.0);
        one(T::sym(d))
    }
}
/// long lists
struct L;
impl Long for L {
    fn go<T: M>(&self, n: usize, all: bool) {
        one(long_value::<T>(n, all, sx::SEED))
    }
}
pub fn run() {
    match sx::split(10) {
        0 => family(sx::split(NFAM), &V),
        1 => family_maps(sx::split(NMAPS), &V),
        2 => big(sx::split(NBIG), &B(sx::SEED + sx::split(SEEDS) as u32)),
        3 => big_maps(sx::split(NBIGMAPS), &B(sx::SEED + sx::split(SEEDS) as u32)),
        4 => huge(sx::split(NHUGE), &H),
        5 => family(sx::split(NFAM), &W),
        6 => family_maps(sx::split(NMAPS), &W),
        7 => family(sx::split(NFAM), &R(sx::SEED + 1000 + sx::split(SEEDS) as u32)),
        8 => family_maps(sx::split(NMAPS), &R(sx::SEED + 1000 + sx::split(SEEDS) as u32)),
        _ => long(sx::split(NLONG), &L),
    }
}
const SEEDS: usize = if sx::THOROUGH { 120 } else { 12 };
/// every type with longer lists: structure chosen by the seed
struct R(u32);
impl Visitor for R {
    fn go<T: M>(&self, _n: usize, d: usize) {
        sx::mode(1, self.0);
        one(T::sym(if d > 1 { 2 * d + 1 } else { 1 }))
    }
}
struct H;
impl Huge for H {
    fn go<T: M>(&self, v: T) {
        one(v)
    }
}
