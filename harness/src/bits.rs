//! Bitfields against a plain sequence of booleans.
use crate::model::{self, S, Val};
use crate::sx;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use std::hash::{Hash, Hasher};
use typenum::Unsigned;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    List,
    Vector,
    Dynamic,
}
/// the public interface shared by the three bitfield types
pub trait BF: Clone + PartialEq + Eq + Hash + Encode + Decode {
    const KIND: Kind;
    fn schema() -> S;
    /// capacity (lists, vectors)
    fn cap() -> usize;
    /// lengths worth exploring
    fn lens() -> Vec<usize>;
    /// all-false bitfield through the plain constructor
    fn zeros(n: usize) -> Self;
    /// from wire bytes through the byte-level constructor
    fn from_wire(b: SmallVec<[u8; 128]>, n: usize) -> Option<Self>;
    fn wire(self) -> SmallVec<[u8; 128]>;
    fn raw(self) -> SmallVec<[u8; 128]>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, i: usize) -> Option<bool>;
    fn set(&mut self, i: usize, v: bool) -> bool;
    fn bits(&self) -> Vec<bool>;
    fn num_set(&self) -> usize;
    fn highest(&self) -> Option<usize>;
    fn zero(&self) -> bool;
    fn slice(&self) -> &[u8];
    fn shift(&mut self, n: usize) -> bool;
    fn diff(&self, o: &Self) -> Self;
    fn diff_in(&mut self, o: &Self);
    fn union_(&self, o: &Self) -> Self;
    fn inter(&self, o: &Self) -> Self;
    /// None where the type has no such operation
    fn subset(&self, o: &Self) -> Option<bool>;
}
macro_rules! common {
    () => {
        fn raw(self) -> SmallVec<[u8; 128]> {
            self.into_raw_bytes()
        }
        fn wire(self) -> SmallVec<[u8; 128]> {
            self.into_bytes()
        }
        fn len(&self) -> usize {
            Self::len(self)
        }
        fn is_empty(&self) -> bool {
            Self::is_empty(self)
        }
        fn get(&self, i: usize) -> Option<bool> {
            Self::get(self, i).ok()
        }
        fn set(&mut self, i: usize, v: bool) -> bool {
            Self::set(self, i, v).is_ok()
        }
        fn bits(&self) -> Vec<bool> {
            self.iter().collect()
        }
        fn num_set(&self) -> usize {
            self.num_set_bits()
        }
        fn highest(&self) -> Option<usize> {
            self.highest_set_bit()
        }
        fn zero(&self) -> bool {
            self.is_zero()
        }
        fn slice(&self) -> &[u8] {
            self.as_slice()
        }
        fn shift(&mut self, n: usize) -> bool {
            self.shift_up(n).is_ok()
        }
        fn diff(&self, o: &Self) -> Self {
            self.difference(o)
        }
        fn diff_in(&mut self, o: &Self) {
            self.difference_inplace(o)
        }
    };
}
/// every length up to 18, byte boundaries beyond
pub fn spread(max: usize) -> Vec<usize> {
    if max <= 18 {
        return (0..=max).collect();
    }
    if max > 512 {
        return vec![0, 1, 17, 256, max - 9, max - 1, max];
    }
    let mut v = vec![0, 1, 7, 8, 9, 15, 16, 17, 24, 25, max / 2, max - 9, max - 8, max - 1, max];
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}
impl<N: Unsigned + Clone> BF for BitList<N> {
    const KIND: Kind = Kind::List;
    fn schema() -> S {
        S::BitList(N::to_usize())
    }
    fn cap() -> usize {
        N::to_usize()
    }
    fn lens() -> Vec<usize> {
        spread(N::to_usize())
    }
    fn zeros(n: usize) -> Self {
        Self::with_capacity(n).unwrap()
    }
    fn from_wire(b: SmallVec<[u8; 128]>, _n: usize) -> Option<Self> {
        Self::from_bytes(b).ok()
    }
    common!();
    fn union_(&self, o: &Self) -> Self {
        self.union(o)
    }
    fn inter(&self, o: &Self) -> Self {
        self.intersection(o)
    }
    fn subset(&self, o: &Self) -> Option<bool> {
        Some(self.is_subset(o))
    }
}
impl<N: Unsigned + Clone> BF for BitVector<N> {
    const KIND: Kind = Kind::Vector;
    fn schema() -> S {
        S::BitVec(N::to_usize())
    }
    fn cap() -> usize {
        N::to_usize()
    }
    fn lens() -> Vec<usize> {
        vec![N::to_usize()]
    }
    fn zeros(_n: usize) -> Self {
        Self::new()
    }
    fn from_wire(b: SmallVec<[u8; 128]>, _n: usize) -> Option<Self> {
        Self::from_bytes(b).ok()
    }
    common!();
    fn union_(&self, o: &Self) -> Self {
        self.union(o)
    }
    fn inter(&self, o: &Self) -> Self {
        self.intersection(o)
    }
    fn subset(&self, o: &Self) -> Option<bool> {
        Some(self.is_subset(o))
    }
}
impl BF for BitVectorDynamic {
    const KIND: Kind = Kind::Dynamic;
    fn schema() -> S {
        S::BitDyn
    }
    fn cap() -> usize {
        usize::MAX
    }
    fn lens() -> Vec<usize> {
        vec![8, 16, 24, 40]
    }
    fn zeros(n: usize) -> Self {
        Self::new(n).unwrap()
    }
    fn from_wire(b: SmallVec<[u8; 128]>, n: usize) -> Option<Self> {
        Self::from_bytes_with_len(b, n).ok()
    }
    common!();
    fn union_(&self, o: &Self) -> Self {
        self.union(o).unwrap()
    }
    fn inter(&self, o: &Self) -> Self {
        self.intersection(o).unwrap()
    }
    fn subset(&self, _o: &Self) -> Option<bool> {
        None
    }
}
/// an arbitrary bitfield of n bits, with the booleans it must stand for
pub fn any<B: BF>(n: usize, route: usize) -> (B, Vec<bool>) {
    build(crate::types::bit_bytes(n, B::KIND == Kind::List), n, route)
}
/// like `any` for long bitfields: symbolic at both ends and around word and storage boundaries, all false or
/// all true elsewhere
pub fn any_wide<B: BF>(n: usize, route: usize) -> (B, Vec<bool>) {
    let mut w = crate::types::bit_bytes(n, B::KIND == Kind::List);
    let fill = if sx::choose(2) == 1 { 0xff } else { 0 };
    let t = w.len();
    for i in 1..t.saturating_sub(2) {
        let near = |k: usize| i + 1 == k || i == k;
        let words = t < 20 || sx::THOROUGH;
        if !(i < 1 || words && (i == 1 || near(4) || near(16)) || near(8) || (words || t < 128) && near(t / 2) || near(128)) {
            w[i] = fill;
        }
    }
    build(w, n, route)
}
fn build<B: BF>(w: Vec<u8>, n: usize, route: usize) -> (B, Vec<bool>) {
    let bits: Vec<bool> = (0..n).map(|i| w[i / 8] >> (i % 8) & 1 == 1).collect();
    let b = match route {
        // byte-level constructor, inline storage
        0 => B::from_wire(SmallVec::from_slice(&w), n),
        // byte-level constructor, storage on the heap
        1 => B::from_wire(SmallVec::from_vec(w), n),
        // SSZ
        2 => B::from_ssz_bytes(&w).ok(),
        // all false, then set
        _ => {
            let mut b = B::zeros(n);
            for i in 0..n {
                let ok = b.set(i, bits[i]);
                sx::check(ok, "set rejects an index inside the length");
            }
            Some(b)
        }
    };
    sx::check(b.is_some(), "a valid bitfield is rejected");
    let b = b.unwrap_or_else(|| B::zeros(n));
    (b, bits)
}
pub const ROUTES: usize = 4;

/// records what a value feeds to a hasher
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b)
    }
}
pub fn transcript<B: Hash>(b: &B) -> Vec<u8> {
    let mut r = Rec::default();
    b.hash(&mut r);
    r.0
}
pub fn same_bits(a: &[bool], b: &[bool]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
pub fn wire_of<B: BF>(m: &[bool]) -> Vec<u8> {
    model::encode(&B::schema(), &Val::Bits(m.to_vec()))
}
fn packed(m: &[bool]) -> Vec<u8> {
    let n = m.len();
    let mut bytes = vec![0u8; if n == 0 { 1 } else { (n + 7) / 8 }];
    for i in 0..n {
        bytes[i / 8] |= (m[i] as u8) << (i % 8);
    }
    bytes
}
/// the view and the bits: cheap enough to run after every operation
pub fn holds<B: BF>(b: &B, m: &[bool]) {
    let n = m.len();
    sx::check(b.len() == n, "length differs");
    let s = b.slice();
    let want = if n == 0 { 1 } else { (n + 7) / 8 };
    sx::check(s.len() == want, "the byte view is not of minimal length");
    if s.len() != want {
        return;
    }
    let bytes = packed(m);
    sx::same(s, &bytes, "the byte view differs from the bits (wrong bit, or a bit set beyond the length)");
    sx::out(s);
}
/// everything observable
pub fn observe<B: BF>(b: &B, m: &[bool]) {
    holds(b, m);
    let n = m.len();
    sx::check(b.is_empty() == (n == 0), "is_empty differs");
    let it = b.bits();
    sx::check(it.len() == n, "the iterator yields a different number of bits");
    if it.len() == n {
        sx::check(same_bits(&it, m), "the iterator yields different bits");
    }
    for i in 0..n {
        sx::check(b.get(i) == Some(m[i]), "get differs");
    }
    match sx::choose(5) {
        0 => {
            // any index at all
            let i = sx::usize();
            match b.get(i) {
                None => sx::check(i >= n, "get rejects an index inside the length"),
                Some(v) => {
                    sx::check(i < n, "get accepts an index outside the length");
                    let mut w = false;
                    for k in 0..n {
                        w |= (k == i) & m[k];
                    }
                    sx::check(v == w, "get differs at some index");
                }
            }
        }
        1 => {
            let mut c = 0usize;
            for x in packed(m) {
                c += x.count_ones() as usize;
            }
            sx::check(b.num_set() == c, "num_set_bits differs");
        }
        2 => {
            let mut any = false;
            for k in 0..n {
                any |= m[k];
            }
            sx::check(b.zero() == !any, "is_zero differs");
        }
        3 => match b.highest() {
            None => {
                let mut any = false;
                for k in 0..n {
                    any |= m[k];
                }
                sx::check(!any, "highest_set_bit finds nothing although a bit is set");
            }
            Some(x) => {
                sx::check(x < n, "highest_set_bit is outside the length");
                let mut ok = true;
                for k in 0..n {
                    ok &= (k != x) | m[k];
                    ok &= (k <= x) | !m[k];
                }
                sx::check(ok, "highest_set_bit differs");
            }
        },
        _ => codec(b, m),
    }
}
/// indices around bytes, words and ends
pub fn marks(n: usize) -> Vec<usize> {
    let mut v = if sx::THOROUGH {
        vec![0, 1, 7, 8, 9, 31, 32, 63, 64, 65, 127, 128, 255, 256, n / 2, n.saturating_sub(9), n.saturating_sub(8), n - 1]
    } else {
        if n < 150 { vec![0, 8, 31, 32, 63, 64, 127, 128, n - 9, n - 1] } else { vec![0, 8, 63, 64, n / 2, n - 1] }
    };
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v
}
/// `observe` for long bitfields
pub fn observe_wide<B: BF>(b: &B, m: &[bool]) {
    holds(b, m);
    let n = m.len();
    sx::check(!b.is_empty(), "is_empty differs");
    match sx::choose(5) {
        0 => {
            let it = b.bits();
            sx::check(it.len() == n, "the iterator yields a different number of bits");
            sx::check(same_bits(&it, m), "the iterator yields different bits");
            for i in 0..n {
                sx::check(b.get(i) == Some(m[i]), "get differs");
            }
            let i = sx::usize();
            sx::assume(i >= n);
            sx::check(b.get(i).is_none(), "get accepts an index outside the length");
        }
        1 => {
            let mut c = 0usize;
            for x in packed(m) {
                c += x.count_ones() as usize;
            }
            sx::check(b.num_set() == c, "num_set_bits differs");
        }
        2 => {
            let any = m.iter().fold(false, |a, x| a | *x);
            sx::check(b.zero() == !any, "is_zero differs");
        }
        3 => {
            let h = b.highest();
            // (concrete on this path up to the position inside a byte)
            let any = m.iter().fold(false, |a, x| a | *x);
            match h {
                None => sx::check(!any, "highest_set_bit finds nothing although a bit is set"),
                Some(x) => {
                    sx::check(x < n, "highest_set_bit is outside the length");
                    let mut ok = true;
                    for k in 0..n {
                        ok &= (k != x) | m[k];
                        ok &= (k <= x) | !m[k];
                    }
                    sx::check(ok, "highest_set_bit differs");
                }
            }
        }
        _ => codec(b, m),
    }
}
/// encoding, equality, hash
pub fn codec<B: BF>(b: &B, m: &[bool]) {
    let n = m.len();
    // encoding
    let w = wire_of::<B>(m);
    let e = b.as_ssz_bytes();
    sx::check(model::beq(&e, &w), "encoding differs");
    sx::check(b.ssz_bytes_len() == w.len(), "predicted size differs");
    sx::check(model::beq(&b.clone().wire(), &w), "into_bytes differs");
    let r = b.clone().raw();
    sx::check(model::beq(&r, b.slice()), "into_raw_bytes differs from the byte view");
    // the same sequence of booleans built another way: equal, and feeding the same bytes to a hasher
    let z = B::from_wire(SmallVec::from_slice(&w), n).unwrap_or_else(|| B::zeros(n));
    sx::check(*b == z, "two bitfields with the same bits are unequal");
    sx::check(!(*b != z), "two bitfields with the same bits are unequal (ne)");
    let (x, y) = (transcript(b), transcript(&z));
    sx::check(model::beq(&x, &y), "two bitfields with the same bits hash differently");
    match B::from_ssz_bytes(&w) {
        Ok(d) => {
            sx::check(*b == d, "a bitfield differs from the one decoded from its encoding");
            sx::check(model::beq(&transcript(&d), &x), "a decoded bitfield hashes differently");
        }
        Err(_) => sx::check(false, "the encoding does not decode"),
    }
    // equality with any other bitfield, of this length or another one
    let mut ls: Vec<usize> = vec![n, n + 1, n + 7, n + 8];
    if n > 0 {
        ls.push(n - 1);
    }
    if n > 7 {
        ls.push(n - 7);
    }
    ls.retain(|x| match B::KIND {
        Kind::List => *x <= B::cap(),
        Kind::Vector => *x == n,
        Kind::Dynamic => *x > 0 && *x % 8 == 0,
    });
    let on = ls[sx::choose(ls.len())];
    let (o, om) = if on > 48 { any_wide::<B>(on, 0) } else { any::<B>(on, 0) };
    let want = same_bits(m, &om);
    sx::check((*b == o) == want, "equality differs");
    sx::check((o == *b) == want, "equality differs (the other way round)");
    sx::check((*b != o) != want, "inequality differs");
    holds(b, m);
}
