//! C05: decoding untrusted bytes never panics, overflows, indexes out of bounds or aborts.
//! (every panic/abort/out-of-bounds on any path is a violation; nothing is allowed to panic here)
use crate::sx;
use crate::types::*;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, SszDecoderBuilder};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use typenum::*;

fn dec<T: Decode>(b: &[u8]) {
    let r = T::from_ssz_bytes(b);
    sx::cover(if r.is_ok() { 1 } else { 0 });
    sx::out_bool(r.is_ok());
}
struct V;
impl Visitor for V {
    fn go<T: M>(&self, n: usize, _d: usize) {
        let ls = lengths::<T>(cap(n));
        let len = ls[sx::split(ls.len())];
        dec::<T>(&sx::bytes(len))
    }
}
struct F;
impl Visitor for F {
    fn go<T: M>(&self, n: usize, _d: usize) {
        let len = sx::split(cap(n) + 1);
        dec::<T>(&sx::bytes(len))
    }
}
struct N(u32);
impl Big for N {
    fn go<T: M>(&self, d: usize) {
        dec::<T>(&near::<T>(self.0, d, NEARLEN))
    }
}

// degenerate and transparent types (decode only)
#[derive(Debug, PartialEq, ssz_derive::Encode, ssz_derive::Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum TransEnum {
    A(u16),
    B(Vec<u32>),
    C(VarMid),
    D(Vec<u8>),
}
#[derive(Debug, PartialEq, ssz_derive::Encode, ssz_derive::Decode)]
pub struct OnlySkipped {
    #[ssz(skip_serializing, skip_deserializing)]
    pub a: u64,
    #[ssz(skip_serializing, skip_deserializing)]
    pub b: Vec<u8>,
}
#[derive(Debug, PartialEq, PartialOrd, Eq, Ord, Clone, ssz_derive::Encode, ssz_derive::Decode)]
pub struct Z {}
macro_rules! deg {
    ($($t:ty, $n:expr;)*) => {
        pub const NDEG: usize = [$(stringify!($t)),*].len();
        #[allow(unused_assignments)]
        fn deg(i: usize) {
            let mut k = 0usize;
            $( if i == k { let len = sx::split($n + 1); return dec::<$t>(&sx::bytes(len)); } k += 1; )*
        }
    };
}
deg! {
    Empty, 3;
    Z, 3;
    Vec<Empty>, 9;
    Vec<Z>, 9;
    SmallVec<[Z; 2]>, 9;
    SmallVec<[Empty; 4]>, 5;
    BTreeSet<Z>, 9;
    BTreeMap<Z, Z>, 9;
    BTreeMap<Z, Vec<u8>>, 12;
    BTreeMap<Z, u8>, 4;
    BTreeMap<u8, Z>, 4;
    [u8; 0], 3;
    Vec<[u8; 0]>, 6;
    Vec<Vec<[u8; 0]>>, 12;
    Vec<Vec<Z>>, 12;
    BTreeSet<[u8; 0]>, 6;
    Vec<(Z, Z)>, 6;
    Vec<OnlySkipped>, 9;
    SmallVec<[OnlySkipped; 1]>, 5;
    OnlySkipped, 3;
    Option<Empty>, 3;
    Option<Vec<Empty>>, 5;
    (Empty, u8), 3;
    (Empty, Vec<u8>), 6;
    (Empty, Empty), 2;
    Arc<Vec<Empty>>, 4;
    Vec<Arc<Empty>>, 4;
    TransEnum, 12;
    Vec<TransEnum>, 16;
    Option<TransEnum>, 10;
    Generic<Empty, Vec<Empty>>, 12;
    BTreeMap<Vec<u8>, Empty>, 14;
    BitList<U0>, 3;
    Vec<BitList<U0>>, 10;
    Vec<BitVector<U0>>, 4;
    BitVector<U1024>, 129;
    BitList<U1024>, 130;
    BitVector<Sum<U1024, U16>>, 132;
    BitVectorDynamic, 140;
}

fn helper(i: usize) {
    match i {
        0 => {
            let n = sx::split(12);
            let b = sx::bytes(n);
            let r = ssz::read_offset(&b);
            sx::out_bool(r.is_ok());
        }
        1 => {
            let n = sx::split(6);
            let b = sx::bytes(n);
            match ssz::split_union_bytes(&b) {
                Ok((s, body)) => {
                    let s: u8 = s.into();
                    sx::out(&[s]);
                    sx::out(body);
                }
                Err(_) => sx::out(b"e"),
            }
        }
        2 => sx::out_bool(ssz::UnionSelector::new(sx::u8()).is_ok()),
        3 => {
            let n = sx::split(9);
            let b = sx::bytes(n);
            sx::out_bool(ssz::legacy::read_four_byte_union_selector(&b).is_ok());
        }
        4 => {
            let n = sx::split(18);
            let b = sx::bytes(n);
            let lim = if sx::split(2) == 0 { None } else { Some(sx::usize()) };
            let r: Result<Vec<Vec<u8>>, _> = ssz::decode_list_of_variable_length_items(&b, lim);
            sx::out_bool(r.is_ok());
        }
        5 => {
            let n = sx::split(15);
            let b = sx::bytes(n);
            let lim = if sx::split(2) == 0 { None } else { Some(sx::usize()) };
            let r: Result<SmallVec<[Vec<u16>; 2]>, _> = ssz::decode_list_of_variable_length_items(&b, lim);
            sx::out_bool(r.is_ok());
        }
        6 => {
            let n = sx::split(14);
            let b = sx::bytes(n);
            let lim = if sx::split(2) == 0 { None } else { Some(sx::usize()) };
            let r: Result<BTreeSet<Vec<u8>>, _> = ssz::decode_list_of_variable_length_items(&b, lim);
            sx::out_bool(r.is_ok());
        }
        7 => {
            // items of fixed size and of zero size through the variable-length entry point
            let n = sx::split(14);
            let b = sx::bytes(n);
            let r: Result<Vec<u8>, _> = ssz::decode_list_of_variable_length_items(&b, Some(sx::usize()));
            sx::out_bool(r.is_ok());
        }
        8 => {
            let n = sx::split(10);
            let b = sx::bytes(n);
            let r: Result<Vec<Empty>, _> = ssz::decode_list_of_variable_length_items(&b, None);
            sx::out_bool(r.is_ok());
        }
        9 => {
            // the offset word codec on every 32-bit value
            let x = sx::u32();
            let r = ssz::read_offset(&ssz::encode_length(x as usize));
            sx::out_bool(r.is_ok());
        }
        10 => bits::<U0>(4),
        11 => bits::<U1>(4),
        12 => bits::<U7>(4),
        13 => bits::<U8>(4),
        14 => bits::<U9>(5),
        15 => bits::<U16>(5),
        16 => bits::<U17>(6),
        17 => bits::<U64>(11),
        18 => bits::<U1024>(0),
        19 => bits::<Sum<U1024, U6>>(0),
        20 => {
            let n = sx::split(6);
            let r = BitVectorDynamic::from_bytes_with_len(SmallVec::from_vec(sx::bytes(n)), sx::usize());
            sx::out_bool(r.is_ok());
        }
        21 => {
            let n = 127 + sx::split(5);
            let r = BitVectorDynamic::from_bytes_with_len(SmallVec::from_vec(sx::bytes(n)), sx::usize());
            sx::out_bool(r.is_ok());
        }
        22 => builder(false),
        _ => builder(true),
    }
    sx::cover(2);
}
const NHELP: usize = 24;
fn bits<N: Unsigned + Clone>(n: usize) {
    let n = if n == 0 { 126 + sx::split(6) } else { sx::split(n + 1) };
    let b = sx::bytes(n);
    // both the inline and the spilled representation
    let sv = |b: &[u8]| SmallVec::<[u8; 128]>::from_slice(b);
    if sx::split(2) == 0 {
        let r = BitList::<N>::from_bytes(sv(&b));
        sx::out_bool(r.is_ok());
        if let Ok(x) = r {
            let y = x.into_bytes();
            sx::out(&y);
        }
    } else {
        let r = BitVector::<N>::from_bytes(SmallVec::from_vec(b));
        sx::out_bool(r.is_ok());
    }
}
/// registration sequences as documented: stop at the first error, then decode exactly the registered items
fn builder(typed: bool) {
    let k = sx::split(ITEMS + 1);
    let n = [0, 1, 3, 4, 5, 8, 9, 12, 13, 17][sx::split(10)];
    let b = sx::bytes(n);
    let mut bl = SszDecoderBuilder::new(&b);
    let mut ok = true;
    for _ in 0..k {
        let r = if typed {
            match sx::choose(5) {
                0 => bl.register_type::<u16>(),
                1 => bl.register_type::<Vec<u8>>(),
                2 => bl.register_type::<Empty>(),
                3 => bl.register_anonymous_variable_length_item(),
                _ => bl.register_type::<FixNest>(),
            }
        } else if sx::choose(2) == 0 {
            bl.register_type_parameterized(true, sx::usize())
        } else {
            bl.register_type_parameterized(false, sx::usize())
        };
        if r.is_err() {
            ok = false;
            break;
        }
    }
    sx::out_bool(ok);
    if ok {
        if let Ok(mut d) = bl.build() {
            sx::cover(3);
            for _ in 0..k {
                let r = d.decode_next_with(|s| Ok::<_, ssz::DecodeError>(s.len()));
                sx::out(&[r.unwrap() as u8]);
            }
        }
    }
}
const ITEMS: usize = if sx::THOROUGH { 5 } else { 4 };
const SEEDS: usize = if sx::THOROUGH { 6 } else { 1 };
const NEARLEN: usize = if sx::THOROUGH { 90 } else { 40 };
pub fn cap(n: usize) -> usize {
    if sx::THOROUGH || n <= 20 {
        n
    } else {
        20
    }
}
pub fn run() {
    match sx::split(6) {
        0 => family(sx::split(NFAM), &V),
        1 => family_maps(sx::split(NMAPS), &F),
        2 => big(sx::split(NBIG), &N(sx::SEED + sx::split(SEEDS) as u32)),
        3 => big_maps(sx::split(NBIGMAPS), &N(sx::SEED + sx::split(SEEDS) as u32)),
        4 => deg(sx::split(NDEG)),
        _ => helper(sx::split(NHELP)),
    }
}
