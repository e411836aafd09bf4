//! C07: size metadata is exact and consistent between encoder and decoder.
use crate::model;
use crate::sx;
use crate::types::*;
fn metadata<T: M>() {
    let (ef, ee) = (<T as ssz::Encode>::is_ssz_fixed_len(), <T as ssz::Encode>::ssz_fixed_len());
    let (df, de) = (<T as ssz::Decode>::is_ssz_fixed_len(), <T as ssz::Decode>::ssz_fixed_len());
    sx::out_bool(ef);
    sx::check(ef == df, "encoder and decoder disagree on fixedness");
    sx::check(ee == de, "encoder and decoder disagree on the fixed length");
    match model::fixed(&T::schema()) {
        Some(n) => {
            sx::check(ef, "a fixed-size type is reported as variable-size");
            sx::check(ee == n, "wrong fixed length");
        }
        None => {
            sx::check(!ef, "a variable-size type is reported as fixed-size");
            sx::check(ee == 4, "the fixed part of a variable-size type is not 4 bytes");
        }
    }
}
fn size<T: M>(v: T) {
    let n = v.ssz_bytes_len();
    let e = v.as_ssz_bytes();
    sx::cover(1);
    sx::out(&e);
    sx::check(n == e.len(), "predicted size differs from the number of bytes produced");
    if <T as ssz::Encode>::is_ssz_fixed_len() {
        sx::cover(2);
        sx::check(e.len() == <T as ssz::Encode>::ssz_fixed_len(), "a fixed-size value does not encode to the advertised length");
    }
}
struct V;
impl Visitor for V {
    fn go<T: M>(&self, _n: usize, d: usize) {
        match sx::split(5) {
            3 => metadata::<(u8, T, Vec<u8>)>(),
            4 => size((sx::u8(), T::sym(d), Vec::<u8>::sym(1))),
            0 => metadata::<T>(),
            1 => size(T::sym(d)),
            _ => {
                if !<T as ssz::Decode>::is_ssz_fixed_len() {
                    return;
                }
                // only inputs of the advertised length may be accepted
                let f = <T as ssz::Decode>::ssz_fixed_len();
                let mut ls: Vec<usize> = if f <= 48 { (0..=2 * f + 1).collect() } else { vec![0, 1, f / 2, f - 4, f - 1, f + 1, f + 4, 2 * f] };
                ls.retain(|l| *l != f);
                let len = ls[sx::split(ls.len())];
                sx::allow_panic(true);
                let r = T::from_ssz_bytes(&sx::bytes(len));
                sx::allow_panic(false);
                sx::cover(3);
                sx::out_bool(r.is_ok());
                sx::check(r.is_err(), "a fixed-size type accepts an input of another length");
            }
        }
    }
}
struct B(u32);
impl Big for B {
    fn go<T: M>(&self, d: usize) {
        sx::mode(1, self.0);
        size(T::sym(d))
    }
}
struct H;
impl Huge for H {
    fn go<T: M>(&self, v: T) {
        size(v)
    }
}
/// long lists
struct L;
impl Long for L {
    fn go<T: M>(&self, n: usize, all: bool) {
        size(long_value::<T>(n, all, sx::SEED))
    }
}
const SEEDS: usize = if sx::THOROUGH { 120 } else { 12 };
/// every type with longer lists: structure chosen by the seed
struct R(u32);
impl Visitor for R {
    fn go<T: M>(&self, _n: usize, d: usize) {
        sx::mode(1, self.0);
        size(T::sym(if d > 1 { 2 * d + 1 } else { 1 }))
    }
}
pub fn run() {
    match sx::split(8) {
        0 => family(sx::split(NFAM), &V),
        1 => family_maps(sx::split(NMAPS), &V),
        2 => big(sx::split(NBIG), &B(sx::SEED + sx::split(SEEDS) as u32)),
        3 => big_maps(sx::split(NBIGMAPS), &B(sx::SEED + sx::split(SEEDS) as u32)),
        4 => long(sx::split(NLONG), &L),
        5 => family(sx::split(NFAM), &R(sx::SEED + 1000 + sx::split(SEEDS) as u32)),
        6 => family_maps(sx::split(NMAPS), &R(sx::SEED + 1000 + sx::split(SEEDS) as u32)),
        _ => huge(sx::split(NHUGE), &H),
    }
}
