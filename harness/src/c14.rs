//! C14: the byte-level API accepts and produces exactly what the SSZ codec does, and what the rules say.
use crate::bits::*;
use crate::sx;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic};
use typenum::*;

/// the reference validity rule: Some(bits) iff `w` is valid
fn valid<B: BF>(w: &[u8]) -> Option<Vec<bool>> {
    let c = B::cap();
    if w.is_empty() {
        return None;
    }
    let last = w[w.len() - 1];
    match B::KIND {
        Kind::List => {
            if last == 0 {
                return None;
            }
            // position of the highest set bit, found by comparison
            let mut p = 0;
            for k in 0..8 {
                if last >= 1 << k {
                    p = k;
                }
            }
            let n = (w.len() - 1) * 8 + p;
            if n > c {
                return None;
            }
            Some((0..n).map(|i| w[i / 8] >> (i % 8) & 1 == 1).collect())
        }
        Kind::Vector => {
            if w.len() != std::cmp::max(1, c.div_ceil(8)) {
                return None;
            }
            let mut stray = false;
            for i in c..w.len() * 8 {
                stray |= w[i / 8] >> (i % 8) & 1 == 1;
            }
            if stray {
                return None;
            }
            Some((0..c).map(|i| w[i / 8] >> (i % 8) & 1 == 1).collect())
        }
        Kind::Dynamic => Some((0..w.len() * 8).map(|i| w[i / 8] >> (i % 8) & 1 == 1).collect()),
    }
}
fn check_bytes<B: BF>(w: Vec<u8>) {
    let want = valid::<B>(&w);
    let heap = sx::choose(2) == 1;
    let sv: SmallVec<[u8; 128]> = if heap { SmallVec::from_vec(w.clone()) } else { SmallVec::from_slice(&w) };
    let a = B::from_wire(sv, w.len() * 8);
    let b = B::from_ssz_bytes(&w).ok();
    match want {
        None => {
            sx::cover(1);
            sx::check(a.is_none(), "the byte-level constructor accepts an invalid string");
            sx::check(b.is_none(), "SSZ decoding accepts an invalid string");
        }
        Some(m) => {
            sx::cover(2);
            let (Some(a), Some(b)) = (a, b) else {
                sx::check(false, "a valid string is rejected");
                return;
            };
            sx::check(a == b, "the byte-level constructor and SSZ decoding disagree on the value");
            holds(&a, &m);
            holds(&b, &m);
            let e = a.as_ssz_bytes();
            sx::same(&e, &w, "SSZ encoding does not reproduce the accepted string");
            let r = b.clone().raw();
            sx::same(&r, b.slice(), "into_raw_bytes differs from the byte view");
            let x = b.wire();
            sx::same(&x, &w, "into_bytes does not reproduce the accepted string");
        }
    }
}
/// both directions from values: what into_bytes and SSZ encoding produce for any value, however built
fn check_value<B: BF>(n: usize) {
    let (b, m) = any::<B>(n, sx::choose(if n <= 9 { 4 } else { 3 }));
    let w = wire_of::<B>(&m);
    sx::cover(3);
    let e = b.as_ssz_bytes();
    sx::same(&e, &w, "SSZ encoding differs from the reference");
    sx::check(b.ssz_bytes_len() == w.len(), "predicted size differs");
    let x = b.clone().wire();
    sx::same(&x, &w, "into_bytes differs from SSZ encoding");
    let y = B::from_wire(x, n);
    match y {
        Some(y) => sx::check(y == b, "from_bytes of into_bytes yields another value"),
        None => sx::check(false, "from_bytes rejects into_bytes"),
    }
    holds(&b, &m);
}
fn go<B: BF>() {
    let c = B::cap();
    match sx::split(2) {
        0 => {
            // every byte string of every length up to beyond the longest valid one
            let top = match B::KIND {
                Kind::List => c / 8 + 1,
                Kind::Vector => std::cmp::max(1, c.div_ceil(8)),
                Kind::Dynamic => 4,
            };
            let mut ls: Vec<usize> = (0..=top + 2).collect();
            if top > 9 {
                ls.retain(|x| *x < 3 || *x + 2 >= top);
                ls.push(top + 9);
            }
            let n = ls[sx::choose(ls.len())];
            check_bytes::<B>(sx::bytes(n));
        }
        _ => {
            let ls: Vec<usize> = match B::KIND {
                Kind::List => {
                    let mut v = if c <= 18 { (0..=c).collect() } else { vec![0, 1, 7, 8, 9, 63, 64, 65, 1015, 1016, 1023, 1024, 1025, c - 9, c - 8, c - 7, c - 1, c] };
                    v.retain(|x| *x <= c);
                    v.sort();
                    v.dedup();
                    v
                }
                Kind::Vector => vec![c],
                Kind::Dynamic => vec![8, 16, 24, 40, 64, 1016, 1024, 1032, 2048],
            };
            check_value::<B>(ls[sx::choose(ls.len())]);
        }
    }
}
macro_rules! types {
    ($($k:ident: $($n:ty),*;)*) => {
        const NT: usize = [$( $(stringify!($k $n)),* ),*].len() + 1;
        #[allow(unused_assignments)]
        fn ty(i: usize) {
            let mut k = 0usize;
            $( $( if i == k { return go::<$k<$n>>(); } k += 1; )* )*
            go::<BitVectorDynamic>()
        }
    };
}
type U1040 = <U1024 as std::ops::Add<U16>>::Output;
type U1041 = <U1024 as std::ops::Add<U17>>::Output;
type U1023 = <U1024 as std::ops::Sub<U1>>::Output;
type U1025 = <U1024 as std::ops::Add<U1>>::Output;
types! {
    BitList: U0, U1, U2, U3, U4, U5, U6, U7, U8, U9, U10, U11, U12, U13, U14, U15, U16, U17, U23, U24, U25, U31, U32, U33, U64, U256, U1023, U1024, U1025, U1040, U2048;
    BitVector: U0, U1, U2, U3, U4, U5, U6, U7, U8, U9, U10, U11, U12, U13, U14, U15, U16, U17, U23, U24, U25, U31, U32, U33, U63, U64, U65, U256, U512, U1023, U1024, U1025, U1040, U1041, U2048;
}
pub fn run() {
    ty(sx::split(NT))
}
