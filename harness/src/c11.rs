//! C11: bitfields behave as boolean sequences under any operation history.
//! From an arbitrary valid state (every reachable state is one: the state is the bytes and the length), one
//! operation (quick) or a short history leads to the state the model predicts; observations agree there.
use crate::bits::*;
use crate::sx;
use ssz::{BitList, BitVector, BitVectorDynamic};
use typenum::*;
type U1040 = Sum<U1024, U16>;
type U1030 = Sum<U1024, U6>;

fn op<B: BF>(b: B, m: Vec<bool>, which: usize) -> (B, Vec<bool>) {
    let n = m.len();
    let (mut b, mut m) = (b, m);
    match which {
        0 => {
            // set at any index
            let i = sx::usize();
            let v = sx::bool();
            if b.set(i, v) {
                sx::cover(1);
                sx::check(i < n, "set accepts an index outside the length");
                for k in 0..n {
                    m[k] = if k == i { v } else { m[k] };
                }
            } else {
                sx::cover(2);
                sx::check(i >= n, "set rejects an index inside the length");
            }
        }
        1 => {
            // shift by any amount
            let s = sx::usize();
            if b.shift(s) {
                sx::cover(3);
                sx::check(s <= n, "shift_up accepts an amount larger than the length");
                // (the loops have made s concrete on this path)
                let old = m.clone();
                for k in 0..n {
                    m[k] = if k >= s { old[k - s] } else { false };
                }
            } else {
                sx::cover(4);
                sx::check(s > n, "shift_up rejects an amount within the length");
            }
        }
        2 => {
            let ls = B::lens();
            let on = ls[sx::choose(ls.len())];
            let (o, om) = any::<B>(on, 0);
            b.diff_in(&o);
            for k in 0..n {
                m[k] &= !(k < on && om[k]);
            }
            holds(&o, &om);
        }
        3 => {
            // a clone is independent of its original
            let mut c = b.clone();
            sx::check(c == b, "a clone is unequal");
            for k in 0..n {
                c.set(k, k % 2 == 0);
            }
            holds(&b, &m);
            b = b.clone();
        }
        4 => {
            let e = b.as_ssz_bytes();
            match B::from_ssz_bytes(&e) {
                Ok(d) => b = d,
                Err(_) => sx::check(false, "the encoding does not decode"),
            }
        }
        _ => {}
    }
    sx::cover(10 + which as u32);
    (b, m)
}
const OPS: usize = 6;
fn go<B: BF>(small: bool) {
    let ls = B::lens();
    let n = ls[sx::split(ls.len())];
    let route = sx::split(if n <= 5 { ROUTES } else { ROUTES - 1 });
    let steps = if small && sx::THOROUGH {
        3
    } else if small {
        2
    } else {
        1
    };
    let (mut b, mut m) = any::<B>(n, route);
    for i in 0..steps {
        // the first operation from every kind of construction, later ones from the inline one
        if i > 0 && route != 0 {
            break;
        }
        let w = if i == 0 { sx::choose(OPS) } else { sx::choose(OPS - 1) };
        let r = op(b, m, w);
        b = r.0;
        m = r.1;
        if w == 5 {
            break;
        }
    }
    observe(&b, &m);
}
macro_rules! types {
    ($($t:ty, $s:expr;)*) => {
        const NT: usize = [$(stringify!($t)),*].len();
        #[allow(unused_assignments)]
        fn ty(i: usize) {
            let mut k = 0usize;
            $( if i == k { return go::<$t>($s); } k += 1; )*
        }
    };
}
types! {
    BitList<U0>, true;
    BitList<U1>, true;
    BitList<U3>, true;
    BitList<U7>, false;
    BitList<U8>, false;
    BitList<U9>, false;
    BitList<U16>, false;
    BitList<U17>, false;
    BitList<U33>, false;
    BitVector<U0>, true;
    BitVector<U1>, true;
    BitVector<U4>, true;
    BitVector<U7>, false;
    BitVector<U8>, false;
    BitVector<U9>, false;
    BitVector<U15>, false;
    BitVector<U16>, false;
    BitVector<U17>, false;
    BitVector<U33>, false;
    BitVectorDynamic, false;
}

/// long bitfields: word-sized and larger, up to storage on the heap
fn wide<B: BF>(ls: &[usize]) {
    let n = ls[sx::split(ls.len())];
    let route = sx::split(2);
    let (mut b, mut m) = any_wide::<B>(n, route);
    match sx::split(6) {
        0 => {
            let at = marks(n);
            let k = sx::choose(at.len() + 1);
            let v = sx::bool();
            if k < at.len() {
                let ok = b.set(at[k], v);
                sx::check(ok, "set rejects an index inside the length");
                m[at[k]] = v;
            } else {
                let i = sx::usize();
                sx::assume(i >= n);
                sx::check(!b.set(i, v), "set accepts an index outside the length");
            }
        }
        1 => {
            let mut at = marks(n);
            at.push(n);
            let k = sx::choose(at.len() + 1);
            if k < at.len() {
                let s = at[k];
                sx::check(b.shift(s), "shift_up rejects an amount within the length");
                let old = m.clone();
                for k in 0..n {
                    m[k] = if k >= s { old[k - s] } else { false };
                }
            } else {
                let s = sx::usize();
                sx::assume(s > n);
                sx::check(!b.shift(s), "shift_up accepts an amount larger than the length");
            }
        }
        2 => {
            // (an operand of the same, the next shorter or the next longer length)
            let at = ls.iter().position(|x| *x == n).unwrap();
            let near = &ls[at.saturating_sub(1)..(at + 2).min(ls.len())];
            let on = near[sx::choose(near.len())];
            let (o, om) = any_wide::<B>(on, 0);
            b.diff_in(&o);
            for k in 0..n {
                m[k] &= !(k < on && om[k]);
            }
            holds(&o, &om);
        }
        3 => {
            let mut c = b.clone();
            sx::check(c == b, "a clone is unequal");
            for k in 0..n {
                c.set(k, k % 2 == 0);
            }
            holds(&b, &m);
        }
        4 => match B::from_ssz_bytes(&b.as_ssz_bytes()) {
            Ok(d) => b = d,
            Err(_) => sx::check(false, "the encoding does not decode"),
        },
        _ => {}
    }
    sx::cover(20);
    observe_wide(&b, &m);
}
const NW: usize = 9;
fn wide_ty(i: usize) {
    match i {
        0 => wide::<BitList<U300>>(if sx::THOROUGH { &[63, 64, 65, 127, 128, 129, 255, 256, 300] } else { &[63, 64, 65, 257, 300] }),
        1 => wide::<BitList<U1040>>(if sx::THOROUGH { &[1016, 1023, 1024, 1025, 1040] } else { &[1023, 1024, 1040] }),
        2 => wide::<BitVector<U64>>(&[64]),
        3 => wide::<BitVector<U65>>(&[65]),
        4 => wide::<BitVector<U128>>(&[128]),
        5 => wide::<BitVector<U256>>(&[256]),
        6 => wide::<BitVector<U1024>>(&[1024]),
        7 => wide::<BitVector<U1030>>(&[1030]),
        _ => wide::<BitVectorDynamic>(if sx::THOROUGH { &[64, 72, 128, 136, 256, 1024, 1032] } else { &[64, 72, 136, 1032] }),
    }
}
pub fn run() {
    if sx::split(2) == 0 {
        ty(sx::split(NT))
    } else {
        wide_ty(sx::split(NW))
    }
}
