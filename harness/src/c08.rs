//! C08: derived codecs implement the schema of the definition (machine-written definitions, see gen.py).
use crate::model::{self, Val, S};
use crate::sx;
use crate::types::{disturb, M};
use alloy_primitives::Bytes;
use ssz::{BitList, BitVector, Decode, Encode};
use ssz_derive::{Decode, Encode};
use typenum::{U5, U9};

pub trait D: Encode + Decode + PartialEq + Sized {
    /// schema and view of the encoder's side; of the decoder's side
    fn es() -> S;
    fn ds() -> S;
    fn ev(&self) -> Val;
    fn dv(&self) -> Val;
    /// the fields skipped when decoding hold their defaults
    fn blank(&self) -> bool;
    fn make(d: usize) -> Self;
}
pub trait Both: Encode + Decode {}
impl<T: Encode + Decode> Both for T {}
/// a type without any codec
#[derive(PartialEq, Default)]
pub struct Plain(pub u64);
macro_rules! symmetric {
    ($t:ty) => {
        impl M for $t {
            fn schema() -> S {
                <$t as D>::es()
            }
            fn val(&self) -> Val {
                self.ev()
            }
            fn sym(d: usize) -> Self {
                <$t as D>::make(d)
            }
        }
    };
}

// ------------------------------------------------------------------ custom field codecs
macro_rules! codec {
    ($m:ident, $t:ty, $fixed:expr, $len:expr, |$x:ident, $buf:ident| $app:expr, |$y:ident| $size:expr, |$b:ident| $dec:expr) => {
        pub mod $m {
            pub mod encode {
                pub fn is_ssz_fixed_len() -> bool {
                    $fixed
                }
                pub fn ssz_fixed_len() -> usize {
                    $len
                }
                pub fn ssz_append($x: &$t, $buf: &mut Vec<u8>) {
                    $app
                }
                pub fn ssz_bytes_len($y: &$t) -> usize {
                    $size
                }
                pub fn as_ssz_bytes(x: &$t) -> Vec<u8> {
                    let mut v = vec![];
                    ssz_append(x, &mut v);
                    v
                }
            }
            pub mod decode {
                use ssz::DecodeError;
                pub fn is_ssz_fixed_len() -> bool {
                    $fixed
                }
                pub fn ssz_fixed_len() -> usize {
                    $len
                }
                pub fn from_ssz_bytes($b: &[u8]) -> Result<$t, DecodeError> {
                    let r: Option<$t> = $dec;
                    r.ok_or(DecodeError::BytesInvalid(String::new()))
                }
            }
        }
    };
}
codec!(rev2, u16, true, 2, |x, buf| buf.extend_from_slice(&x.to_be_bytes()), |_x| 2, |b| (b.len() == 2).then(|| u16::from_be_bytes([b[0], b[1]])));
codec!(rev3, [u8; 3], true, 3, |x, buf| buf.extend(x.iter().rev()), |_x| 3, |b| (b.len() == 3).then(|| [b[2], b[1], b[0]]));
codec!(two, Vec<u8>, true, 2, |x, buf| buf.extend_from_slice(x), |x| x.len(), |b| (b.len() == 2).then(|| b.to_vec()));
codec!(revv, Vec<u8>, false, 4, |x, buf| buf.extend(x.iter().rev()), |x| x.len(), |b| Some(b.iter().rev().copied().collect()));
codec!(
    vu16,
    u16,
    false,
    4,
    |x, buf| {
        buf.push(0);
        buf.extend_from_slice(&x.to_le_bytes())
    },
    |_x| 3,
    |b| (b.len() == 3 && b[0] == 0).then(|| u16::from_le_bytes([b[1], b[2]]))
);
ssz::four_byte_option_impl!(leg_u16, u16);
type VecU16 = Vec<u16>;
ssz::four_byte_option_impl!(leg_vec, VecU16);

// ------------------------------------------------------------------ checks
fn sizes<T: D>() {
    let (e, d) = (model::fixed(&T::es()), model::fixed(&T::ds()));
    sx::check(<T as Encode>::is_ssz_fixed_len() == e.is_some(), "Encode::is_ssz_fixed_len of a derived type");
    sx::check(<T as Encode>::ssz_fixed_len() == e.unwrap_or(4), "Encode::ssz_fixed_len of a derived type");
    sx::check(<T as Decode>::is_ssz_fixed_len() == d.is_some(), "Decode::is_ssz_fixed_len of a derived type");
    sx::check(<T as Decode>::ssz_fixed_len() == d.unwrap_or(4), "Decode::ssz_fixed_len of a derived type");
}
fn enc<T: D>(d: usize) {
    let v = T::make(d);
    let w = model::encode(&T::es(), &v.ev());
    sx::cover(1);
    sx::check(v.ssz_bytes_len() == w.len(), "a derived type predicts another size than its schema's encoding has");
    let e = v.as_ssz_bytes();
    sx::same(&e, &w, "a derived encoding is not the schema's encoding");
    let mut p = vec![0xee; 3];
    v.ssz_append(&mut p);
    sx::check(p[0] == 0xee && p[1] == 0xee && p[2] == 0xee, "a derived ssz_append changes earlier bytes");
    sx::same(&p[3..], &w, "a derived ssz_append appends something else than the schema's encoding");
    sx::out(&w);
}
fn dec<T: D>(b: &[u8]) {
    let want = model::decode(&T::ds(), b);
    sx::allow_panic(want.is_none());
    let got = T::from_ssz_bytes(b);
    sx::allow_panic(false);
    match (want, got) {
        (Some(w), Ok(v)) => {
            sx::cover(2);
            let x = v.dv();
            sx::check(model::eq(&w, &x), "a derived decoder yields another value than the schema assigns");
            sx::check(v.blank(), "a skipped field is not its default after decoding");
            model::out(&x);
        }
        (None, Err(_)) => sx::cover(3),
        (Some(_), Err(_)) => sx::check(false, "a derived decoder rejects a valid encoding of its schema"),
        (None, Ok(_)) => sx::check(false, "a derived decoder accepts what is no encoding of its schema"),
    }
}
fn go<T: D>(ls: &[usize], d: usize) {
    match sx::split(4) {
        0 => sizes::<T>(),
        1 => enc::<T>(d),
        2 => {
            let n = ls[sx::split(ls.len())];
            dec::<T>(&sx::bytes(n))
        }
        _ => {
            sx::mode(2, sx::SEED);
            let v = T::make(3);
            let e = model::encode(&T::ds(), &v.dv());
            sx::mode(0, 0);
            dec::<T>(&disturb(e, if sx::THOROUGH { 60 } else { 40 }))
        }
    }
}
macro_rules! defs {
    ($($t:ty, $ls:expr, $d:expr;)*) => {
        const ND: usize = [$(stringify!($t)),*].len();
        #[allow(unused_assignments)]
        fn def(i: usize) {
            let mut k = 0usize;
            $( if i == k { return go::<$t>(&$ls, $d); } k += 1; )*
        }
    };
}
include!(concat!(env!("SX_GEN"), "/defs.rs"));
pub fn run() {
    def(sx::split(ND))
}
fn dflt<T: Default + PartialEq>(x: &T) -> bool {
    *x == T::default()
}
