//! C12: set operations are exact for all operand pairs.
use crate::bits::*;
use crate::sx;
use ssz::{BitList, BitVector, BitVectorDynamic};
use typenum::*;

fn at(m: &[bool], i: usize) -> bool {
    if i < m.len() {
        m[i]
    } else {
        false
    }
}
/// lengths for the pair exploration
fn lens<B: BF>() -> Vec<usize> {
    let c = B::cap();
    match B::KIND {
        Kind::Vector => vec![c],
        Kind::Dynamic => {
            if sx::THOROUGH {
                vec![8, 16, 24, 32, 64, 128, 1024, 1032, 1064]
            } else {
                vec![8, 16, 24, 40, 1032]
            }
        }
        Kind::List => {
            let mut v = if c <= 18 {
                (0..=c).collect()
            } else if c <= 64 {
                vec![0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, c - 1, c]
            } else {
                vec![0, 8, 64, 256, 1016, 1023, 1024, 1025, c - 1, c]
            };
            v.retain(|x| *x <= c);
            v.sort();
            v.dedup();
            v
        }
    }
}
fn go<B: BF>() {
    let ls = lens::<B>();
    let n = ls[sx::split(ls.len())];
    let k = ls[sx::choose(ls.len())];
    let (a, am) = any::<B>(n, 0);
    // the other operand may live on the heap, or be the very same object
    let (b, bm) = match sx::choose(3) {
        0 => any::<B>(k, 1),
        1 => any::<B>(k, 2),
        _ => {
            if k == n {
                (a.clone(), am.clone())
            } else {
                return;
            }
        }
    };
    let (lu, li) = match B::KIND {
        Kind::List => (n.max(k), n.min(k)),
        _ => (n.max(k), n.max(k)),
    };
    match sx::choose(5) {
        0 => {
            let r = a.union_(&b);
            let m: Vec<bool> = (0..lu).map(|i| at(&am, i) | at(&bm, i)).collect();
            sx::cover(1);
            holds(&r, &m);
            codec(&r, &m);
        }
        1 => {
            let r = a.inter(&b);
            let m: Vec<bool> = (0..li).map(|i| at(&am, i) & at(&bm, i)).collect();
            sx::cover(2);
            holds(&r, &m);
            codec(&r, &m);
        }
        2 => {
            let r = a.diff(&b);
            let m: Vec<bool> = (0..n).map(|i| am[i] & !at(&bm, i)).collect();
            sx::cover(3);
            holds(&r, &m);
            codec(&r, &m);
        }
        3 => {
            let mut r = a.clone();
            r.diff_in(&b);
            let m: Vec<bool> = (0..n).map(|i| am[i] & !at(&bm, i)).collect();
            sx::cover(4);
            holds(&r, &m);
            codec(&r, &m);
        }
        _ => {
            let s = match a.subset(&b) {
                Some(s) => s,
                None => return,
            };
            let mut w = true;
            for i in 0..n {
                w &= !am[i] | at(&bm, i);
            }
            sx::cover(5);
            sx::check(s == w, "is_subset differs");
            sx::out_bool(s);
        }
    }
    // operands are left alone
    holds(&a, &am);
    holds(&b, &bm);
}
macro_rules! types {
    ($($t:ty;)*) => {
        const NT: usize = [$(stringify!($t)),*].len();
        #[allow(unused_assignments)]
        fn ty(i: usize) {
            let mut k = 0usize;
            $( if i == k { return go::<$t>(); } k += 1; )*
        }
    };
}
types! {
    BitList<U0>;
    BitList<U1>;
    BitList<U2>;
    BitList<U7>;
    BitList<U8>;
    BitList<U9>;
    BitList<U16>;
    BitList<U17>;
    BitList<U40>;
    BitList<U1040>;
    BitVector<U0>;
    BitVector<U1>;
    BitVector<U5>;
    BitVector<U7>;
    BitVector<U8>;
    BitVector<U9>;
    BitVector<U12>;
    BitVector<U16>;
    BitVector<U17>;
    BitVector<U31>;
    BitVector<U32>;
    BitVector<U33>;
    BitVector<U64>;
    BitVector<U1024>;
    BitVector<U1030>;
    BitVectorDynamic;
}
type U1040 = <U1024 as std::ops::Add<U16>>::Output;
type U1030 = <U1024 as std::ops::Add<U6>>::Output;
pub fn run() {
    ty(sx::split(NT))
}
