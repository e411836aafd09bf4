//! C13: length bounds hold on every path that yields a bitfield.
use crate::bits::*;
use crate::serdes::{de, ser};
use crate::sx;
use serde::{Deserialize, Serialize};
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic};
use typenum::*;

/// the bound itself, and a byte view that fits the length
fn bound<B: BF>(b: &B) {
    let n = b.len();
    match B::KIND {
        Kind::List => sx::check(n <= B::cap(), "a bitlist holds more than N bits"),
        Kind::Vector => sx::check(n == B::cap(), "a bitvector does not hold exactly N bits"),
        Kind::Dynamic => sx::check(n > 0 && n % 8 == 0, "a dynamic bitvector does not hold a positive multiple of 8 bits"),
    }
    let want = if n == 0 { 1 } else { n.div_ceil(8) };
    sx::check(b.slice().len() == want, "the byte view does not fit the length");
    sx::check(b.get(n).is_none(), "a bit beyond the length is readable");
    sx::check(b.get(n.wrapping_sub(1)).is_some() == (n > 0), "the last bit is not readable");
    if n <= 300 {
        let k = b.bits().len();
        sx::check(k == n, "the iterator disagrees with the length");
    }
    sx::out(&[n as u8, (n >> 8) as u8]);
    sx::out(b.slice());
}
fn blank<B: BF>(b: &B, n: usize) {
    sx::check(b.len() == n, "a constructor yields another length");
    sx::check(b.zero(), "a constructor yields set bits");
    bound(b);
}
/// byte strings of every length around the bound, through every decoder
fn wires<B: BF + Serialize + for<'a> Deserialize<'a>>() {
    let c = if B::KIND == Kind::Dynamic { 24 } else { B::cap() };
    let top = c / 8 + 1;
    let mut ls: Vec<usize> = (0..=top + 2).collect();
    ls.retain(|x| top < 8 || *x < 2 || *x + 2 >= top);
    let n = ls[sx::choose(ls.len())];
    let how = sx::choose(4);
    let mut w = sx::bytes(n);
    if top >= 8 {
        // only the ends are arbitrary
        for i in 1..n.saturating_sub(2) {
            w[i] = 0x5a;
        }
    }
    let b = match how {
        0 => {
            let k = sx::choose(3);
            B::from_wire(SmallVec::from_slice(&w), (n * 8 + 8 * k).wrapping_sub(8))
        }
        1 => B::from_wire(SmallVec::from_vec(w), n * 8),
        2 => B::from_ssz_bytes(&w).ok(),
        _ => {
            if top > 3 && !sx::THOROUGH {
                return;
            }
            let mut s = String::from("0x");
            for x in &w {
                for q in [x >> 4, x & 15] {
                    s.push((b'0' + q + ((q > 9) as u8) * 39) as char);
                }
            }
            de::<B>(&s, 0)
        }
    };
    match b {
        Some(b) => {
            sx::cover(1);
            bound(&b);
        }
        None => sx::cover(2),
    }
}
/// an operation on arbitrary valid bitfields
fn ops<B: BF + Serialize + for<'a> Deserialize<'a>>() {
    let ls = B::lens();
    let n = ls[sx::choose(ls.len())];
    let (mut a, am) = any::<B>(n, 0);
    match sx::choose(8) {
        o @ 0..=2 => {
            let k = ls[sx::choose(ls.len())];
            let (b, _) = any::<B>(k, 0);
            bound(&match o {
                0 => a.union_(&b),
                1 => a.inter(&b),
                _ => a.diff(&b),
            });
        }
        3 => {
            let (b, _) = any::<B>(ls[sx::choose(ls.len())], 0);
            a.diff_in(&b);
        }
        4 => {
            let s = sx::usize();
            if n > 40 {
                sx::assume((s == 9) | (s >= n - 1));
                if n > 256 {
                    sx::assume(s > n - 1);
                }
            }
            sx::check(a.shift(s) == (s <= n), "shift_up accepts or rejects a wrong amount");
        }
        5 => {
            let i = sx::usize();
            if n > 40 {
                sx::assume((i < 2) | (i >= n - 2));
            }
            sx::check(a.set(i, true) == (i < n), "set accepts or rejects a wrong index");
        }
        6 => {
            if n <= 9 {
                match ser(&a).and_then(|s| de::<B>(&s, 1)) {
                    Some(b) => {
                        bound(&b);
                        sx::check(b.len() == n, "serde changes the length");
                    }
                    None => sx::check(false, "serde does not round-trip"),
                }
            }
        }
        _ => {
            let b = a.clone();
            bound(&b);
            let e = a.as_ssz_bytes();
            match B::from_ssz_bytes(&e) {
                Ok(d) => {
                    bound(&d);
                    holds(&d, &am);
                }
                Err(_) => sx::check(false, "the encoding does not decode"),
            }
        }
    }
    sx::cover(3);
    sx::check(a.len() == n, "an operation changes the length");
    bound(&a);
}
fn list<N: Unsigned + Clone>() {
    type L<N> = BitList<N>;
    sx::check(L::<N>::max_len() == N::to_usize(), "max_len is not N");
    match sx::split(3) {
        0 => {
            let n = sx::usize();
            let c = N::to_usize();
            if c > 64 {
                // long lists: the ends of the range and everything beyond
                sx::assume((n <= 17) | (n > c - 9));
            }
            match L::<N>::with_capacity(n) {
                Ok(b) => {
                    sx::cover(4);
                    sx::check(n <= N::to_usize(), "with_capacity accepts more than N bits");
                    blank(&b, n);
                }
                Err(_) => {
                    sx::cover(5);
                    sx::check(n > N::to_usize(), "with_capacity rejects at most N bits");
                }
            }
        }
        1 => wires::<L<N>>(),
        _ => ops::<L<N>>(),
    }
}
fn vector<N: Unsigned + Clone>() {
    type V<N> = BitVector<N>;
    sx::check(V::<N>::capacity() == N::to_usize(), "capacity is not N");
    match sx::split(3) {
        0 => {
            blank(&V::<N>::new(), N::to_usize());
            blank(&V::<N>::default(), N::to_usize());
        }
        1 => wires::<V<N>>(),
        _ => ops::<V<N>>(),
    }
}
fn dynamic() {
    match sx::split(4) {
        0 => {
            let n = sx::usize();
            // a positive multiple of 8 of any size is legitimate; keep the allocation small
            sx::assume((n <= 200) | (n % 8 != 0));
            match BitVectorDynamic::new(n) {
                Ok(b) => {
                    sx::cover(6);
                    sx::check((n > 0) & (n % 8 == 0), "new accepts a length that is not a positive multiple of 8");
                    blank(&b, n);
                }
                Err(_) => {
                    sx::cover(7);
                    sx::check((n == 0) | (n % 8 != 0), "new rejects a positive multiple of 8");
                }
            }
        }
        1 => {
            // any declared length for any bytes
            let k = sx::choose(6);
            let w = sx::bytes(k);
            let n = sx::usize();
            match BitVectorDynamic::from_bytes_with_len(SmallVec::from_slice(&w), n) {
                Ok(b) => {
                    sx::cover(8);
                    sx::check((n == 8 * k) & (k > 0), "from_bytes_with_len accepts a wrong length");
                    sx::check(b.len() == n, "from_bytes_with_len yields another length");
                    bound(&b);
                }
                Err(_) => {
                    sx::cover(9);
                    sx::check((n != 8 * k) | (k == 0), "from_bytes_with_len rejects the right length");
                }
            }
        }
        2 => wires::<BitVectorDynamic>(),
        _ => ops::<BitVectorDynamic>(),
    }
}
fn resize<N: Unsigned + Clone, M: Unsigned + Clone>() {
    let (n, m) = (N::to_usize(), M::to_usize());
    let ls = BitList::<N>::lens();
    let k = ls[sx::choose(ls.len())];
    let (a, am) = any::<BitList<N>>(k, 0);
    match a.resize::<M>() {
        Err(_) => {
            sx::cover(10);
            sx::check(m < n, "resizing to a capacity at least as large fails");
        }
        Ok(b) => {
            sx::cover(11);
            sx::check(m >= n, "resizing to a smaller capacity succeeds");
            bound(&b);
            let l = b.len();
            let mut ok = true;
            for i in 0..l {
                ok &= b.get(i).ok() == Some(i < k && am[i]);
            }
            for i in l..k {
                ok &= !am[i];
            }
            sx::check(ok, "resizing does not preserve exactly the set bits");
            // what it yields is a proper bitlist of the new capacity
            let e = b.as_ssz_bytes_();
            sx::check(<BitList<M> as ssz::Decode>::from_ssz_bytes(&e).ok() == Some(b), "a resized bitlist does not round-trip");
        }
    }
    holds(&a, &am);
}
trait E {
    fn as_ssz_bytes_(&self) -> Vec<u8>;
}
impl<T: ssz::Encode> E for T {
    fn as_ssz_bytes_(&self) -> Vec<u8> {
        self.as_ssz_bytes()
    }
}
macro_rules! table {
    ($name:ident, $num:ident, $($e:expr;)*) => {
        const $num: usize = [$(stringify!($e)),*].len();
        #[allow(unused_assignments)]
        fn $name(i: usize) {
            let mut k = 0usize;
            $( if i == k { return $e; } k += 1; )*
        }
    };
}
type U1040 = <U1024 as std::ops::Add<U16>>::Output;
table! {
    caps, NCAPS,
    list::<U0>();
    list::<U1>();
    list::<U2>();
    list::<U7>();
    list::<U8>();
    list::<U9>();
    list::<U15>();
    list::<U16>();
    list::<U17>();
    list::<U64>();
    list::<U1040>();
    vector::<U0>();
    vector::<U1>();
    vector::<U4>();
    vector::<U7>();
    vector::<U8>();
    vector::<U9>();
    vector::<U15>();
    vector::<U16>();
    vector::<U17>();
    vector::<U64>();
    vector::<U1024>();
    vector::<U1040>();
    dynamic();
}
macro_rules! pairs {
    ($($n:ty: $($m:ty),*;)*) => {
        fn sizes(i: usize) {
            let mut k = 0usize;
            $( $( if i == k { return resize::<$n, $m>(); } k += 1; )* )*
            let _ = k;
        }
        const NSIZES: usize = [$( $( stringify!($n $m) ),* ),*].len();
    };
}
pairs! {
    U0: U0, U1, U7, U8, U9;
    U1: U0, U1, U2, U8, U9;
    U7: U0, U6, U7, U8, U9, U16;
    U8: U1, U7, U8, U9, U15, U16, U17;
    U9: U7, U8, U9, U10, U16, U17, U33;
    U16: U8, U15, U16, U17, U24;
    U17: U9, U16, U17, U18, U1024, U1040;
}
pub fn run() {
    match sx::split(2) {
        0 => caps(sx::split(NCAPS)),
        _ => sizes(sx::split(NSIZES)),
    }
}
