//! C16: list length limits and refusing collections, decided before any item is touched.
use crate::model::{self, Val, S};
use crate::sx;
use crate::types::{disturb, M};
use smallvec::SmallVec;
use ssz::{decode_list_of_variable_length_items, Decode, DecodeError, TryFromIter};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet};

struct Count(UnsafeCell<usize>);
unsafe impl Sync for Count {}
static CALLS: Count = Count(UnsafeCell::new(0));
fn calls() -> usize {
    unsafe { *CALLS.0.get() }
}
fn reset() {
    unsafe { *CALLS.0.get() = 0 }
}

/// counts its decodings; large in memory, so that room for many of them is visible
#[derive(Clone, PartialEq, Debug)]
pub struct Probe<T> {
    v: T,
    pad: [u64; 8],
}
impl<T: PartialEq> Eq for Probe<T> {}
impl<T: Ord> PartialOrd for Probe<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.v.cmp(&o.v))
    }
}
impl<T: Ord> Ord for Probe<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}
impl<T: Decode> Decode for Probe<T> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        T::ssz_fixed_len()
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        unsafe { *CALLS.0.get() += 1 }
        T::from_ssz_bytes(b).map(|v| Probe { v, pad: [7; 8] })
    }
}
pub trait Item: Decode + PartialEq {
    fn schema() -> S;
    fn val(&self) -> Val;
    /// decoder calls per item
    const PER: usize;
}
impl<T: M> Item for Probe<T> {
    const PER: usize = 1;
    fn schema() -> S {
        T::schema()
    }
    fn val(&self) -> Val {
        self.v.val()
    }
}
impl<A: M, B: M> Item for (Probe<A>, Probe<B>) {
    const PER: usize = 2;
    fn schema() -> S {
        S::Cont(vec![A::schema(), B::schema()])
    }
    fn val(&self) -> Val {
        Val::L(vec![self.0.val(), self.1.val()])
    }
}

// ------------------------------------------------------------------ collections
pub trait Coll<T>: TryFromIter<T> + PartialEq {
    /// what the collection makes of the items; None: it refuses them
    fn expect(v: Vec<Val>) -> Option<Vec<Val>>;
    fn items(&self) -> Vec<Val>;
}
impl<T: Item> Coll<T> for Vec<T> {
    fn expect(v: Vec<Val>) -> Option<Vec<Val>> {
        Some(v)
    }
    fn items(&self) -> Vec<Val> {
        self.iter().map(|x| x.val()).collect()
    }
}
impl<T: Item, const N: usize> Coll<T> for SmallVec<[T; N]> {
    fn expect(v: Vec<Val>) -> Option<Vec<Val>> {
        Some(v)
    }
    fn items(&self) -> Vec<Val> {
        self.iter().map(|x| x.val()).collect()
    }
}
impl<T: M + Ord> Coll<Probe<T>> for BTreeSet<Probe<T>> {
    fn expect(v: Vec<Val>) -> Option<Vec<Val>> {
        match model::collect(&S::Set(Box::new(T::schema())), Val::L(v)) {
            Some(Val::L(v)) => Some(v),
            _ => None,
        }
    }
    fn items(&self) -> Vec<Val> {
        self.iter().map(|x| x.val()).collect()
    }
}
impl<K: M + Ord, V: M> Coll<(Probe<K>, Probe<V>)> for BTreeMap<Probe<K>, Probe<V>> {
    fn expect(v: Vec<Val>) -> Option<Vec<Val>> {
        match model::collect(&S::Map(Box::new(K::schema()), Box::new(V::schema())), Val::L(v)) {
            Some(Val::L(v)) => Some(v),
            _ => None,
        }
    }
    fn items(&self) -> Vec<Val> {
        self.iter().map(|(k, v)| Val::L(vec![k.val(), v.val()])).collect()
    }
}
macro_rules! coll {
    ($name:ident, $err:ty, |$n:ident| $keep:expr, |$it:ident| $body:expr) => {
        #[derive(PartialEq)]
        pub struct $name<T>(Vec<T>);
        impl<T> TryFromIter<T> for $name<T> {
            type Error = $err;
            fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, $err> {
                #[allow(unused_mut)]
                let mut $it = iter.into_iter();
                $body.map($name)
            }
        }
        impl<T: Item> Coll<T> for $name<T> {
            fn expect(v: Vec<Val>) -> Option<Vec<Val>> {
                let $n = v.len();
                if $keep {
                    Some(v)
                } else {
                    None
                }
            }
            fn items(&self) -> Vec<Val> {
                self.0.iter().map(|x| x.val()).collect()
            }
        }
    };
}
fn upto<T>(it: &mut impl Iterator<Item = T>, n: usize) -> Result<Vec<T>, String> {
    let mut v = vec![];
    for x in it {
        if v.len() == n {
            return Err("full".to_string());
        }
        v.push(x);
    }
    Ok(v)
}
// bounded: stops at the first item too many
coll!(B0, String, |n| n == 0, |it| upto(&mut it, 0));
coll!(B1, String, |n| n <= 1, |it| upto(&mut it, 1));
coll!(B2, String, |n| n <= 2, |it| upto(&mut it, 2));
// bounded: takes everything, then refuses
coll!(Late, (), |n| n <= 1, |it| {
    let v: Vec<T> = it.collect();
    if v.len() > 1 {
        Err(())
    } else {
        Ok(v)
    }
});
// refuses anything at all, without looking
coll!(Never, u8, |n| n == usize::MAX, |it| {
    let _ = &mut it;
    Err::<Vec<T>, u8>(3)
});
// refuses emptiness
coll!(NonEmpty, &'static str, |n| n > 0, |it| {
    let v: Vec<T> = it.collect();
    if v.is_empty() {
        Err("empty")
    } else {
        Ok(v)
    }
});
// wants exactly two
coll!(Exactly2, String, |n| n == 2, |it| upto(&mut it, 2).and_then(|v| if v.len() == 2 { Ok(v) } else { Err(String::new()) }));

// ------------------------------------------------------------------ checks
/// the announced item count, None if the first word is no possible offset
fn announced(b: &[u8]) -> Option<usize> {
    if b.len() < 4 {
        return None;
    }
    let w = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
    if (w < 4) | (w % 4 != 0) | (w > b.len()) {
        return None;
    }
    Some(w / 4)
}
fn limit() -> Option<usize> {
    if sx::bool() {
        Some(sx::usize())
    } else {
        None
    }
}
fn run_on<T: Item, C: Coll<T>>(b: &[u8], lim: Option<usize>) {
    let want = model::decode(&S::List(Box::new(T::schema())), b).map(|v| match v {
        Val::L(v) => v,
        _ => unreachable!(),
    });
    reset();
    let before = sx::heap_live();
    sx::heap_reset();
    let r = decode_list_of_variable_length_items::<T, C>(b, lim);
    let peak = sx::heap_peak() - before;
    let used = calls();
    if b.is_empty() {
        sx::cover(1);
        match (C::expect(vec![]), r) {
            (Some(_), Ok(c)) => sx::check(c.items().is_empty(), "empty input yields a collection that is not empty"),
            (None, Err(_)) => sx::cover(2),
            (Some(_), Err(_)) => sx::check(false, "empty input is rejected"),
            (None, Ok(_)) => sx::check(false, "the refusal of the empty collection is lost"),
        }
        return;
    }
    if let (Some(m), Some(n)) = (lim, announced(b)) {
        if n > m {
            sx::cover(3);
            sx::check(r.is_err(), "more items than the limit are accepted");
            sx::check(used == 0, "an item is decoded although the announced count exceeds the limit");
            sx::check(peak <= 1024, "space is allocated although the announced count exceeds the limit");
            return;
        }
    }
    let n_items = want.as_ref().map(|v| v.len());
    let want = want.and_then(C::expect);
    match (&want, &r) {
        (Some(w), Ok(c)) => {
            sx::cover(4);
            let v = c.items();
            sx::check(v.len() == w.len(), "the collection holds another number of items");
            sx::check(model::eq(&Val::L(w.clone()), &Val::L(v)), "the collection holds other items");
            sx::check(used == n_items.unwrap() * T::PER, "the number of decoded items is not the announced one");
        }
        (None, Err(_)) => {
            sx::cover(5);
            if n_items.is_some() {
                sx::cover(6)
            }
        }
        (Some(_), Err(_)) => sx::check(false, "a valid list within the limit is rejected"),
        (None, Ok(_)) => sx::check(false, "an invalid list, or one the collection refuses, is accepted"),
    }
    if lim.is_some() {
        reset();
        let u = decode_list_of_variable_length_items::<T, C>(b, None);
        sx::cover(7);
        sx::check(calls() == used, "limited and unlimited decoding do different work");
        match (&r, &u) {
            (Ok(x), Ok(y)) => sx::check(x == y, "limited and unlimited decoding yield different collections"),
            (Err(x), Err(y)) => sx::check(x == y, "limited and unlimited decoding yield different errors"),
            _ => sx::check(false, "limited and unlimited decoding disagree"),
        }
    }
    sx::out_bool(r.is_ok());
}
fn go<T: Item, C: Coll<T>>(max: usize, sample: &dyn Fn() -> Vec<u8>) {
    match sx::split(3) {
        0 => {
            let n = sx::split(max + 1);
            let b = sx::bytes(n);
            run_on::<T, C>(&b, limit())
        }
        1 => {
            // a longer valid list, disturbed; the limit around its count or anything
            sx::mode(2, sx::SEED);
            let e = sample();
            sx::mode(0, 0);
            let b = disturb(e, if sx::THOROUGH { 60 } else { 24 });
            let l = match sx::split(3) {
                0 => limit(),
                1 => announced(&b).map(|n| n - sx::bool() as usize),
                _ => announced(&b).map(|n| n + sx::bool() as usize),
            };
            run_on::<T, C>(&b, l)
        }
        _ => {
            // far more items than the limit: nothing may happen, whatever the count and the limit are
            let len = [40, 400, 1200][sx::split(3)];
            let mut b = vec![0u8; len];
            let k = sx::u32();
            sx::assume((k as usize >= 1) & (k as usize <= len / 4));
            let w = (k * 4).to_le_bytes();
            b[..4].copy_from_slice(&w);
            for i in 1..len / 4 {
                let x = if sx::SEED % 2 == 0 { len } else { len / 2 + i };
                b[4 * i] = x as u8;
                b[4 * i + 1] = (x >> 8) as u8;
            }
            let m = sx::usize();
            sx::assume(m < k as usize);
            reset();
            let before = sx::heap_live();
            sx::heap_reset();
            let r = decode_list_of_variable_length_items::<T, C>(&b, Some(m));
            sx::cover(8);
            sx::check(r.is_err(), "more items than the limit are accepted");
            sx::check(calls() == 0, "an item is decoded although the announced count exceeds the limit");
            sx::check(sx::heap_peak() - before <= 1024, "space is allocated although the announced count exceeds the limit");
        }
    }
}
fn enc<T: M>(d: usize) -> Vec<u8> {
    let v: Vec<T> = (0..d).map(|_| T::sym(3)).collect();
    model::encode(&S::List(Box::new(T::schema())), &Val::L(v.iter().map(|x| x.val()).collect()))
}
type P = Probe<Option<u8>>;
type Q = Probe<Vec<u16>>;
macro_rules! table {
    ($($t:ty, $c:ty, $n:expr, $e:expr;)*) => {
        const NT: usize = [$(stringify!($c)),*].len();
        #[allow(unused_assignments)]
        fn ty(i: usize) {
            let mut k = 0usize;
            $( if i == k { return go::<$t, $c>($n + if sx::THOROUGH { 3 } else { 0 }, &|| $e); } k += 1; )*
        }
    };
}
table! {
    P, Vec<P>, 13, enc::<Option<u8>>(5);
    P, SmallVec<[P; 2]>, 13, enc::<Option<u8>>(5);
    P, BTreeSet<P>, 11, enc::<Option<u8>>(3);
    P, B0<P>, 13, enc::<Option<u8>>(3);
    P, B1<P>, 13, enc::<Option<u8>>(4);
    P, B2<P>, 13, enc::<Option<u8>>(4);
    P, Late<P>, 13, enc::<Option<u8>>(4);
    P, Never<P>, 13, enc::<Option<u8>>(4);
    P, NonEmpty<P>, 13, enc::<Option<u8>>(4);
    P, Exactly2<P>, 13, enc::<Option<u8>>(3);
    Q, Vec<Q>, 12, enc::<Vec<u16>>(4);
    Q, B2<Q>, 12, enc::<Vec<u16>>(3);
    Q, SmallVec<[Q; 1]>, 12, enc::<Vec<u16>>(4);
    Probe<Vec<Vec<u8>>>, Vec<Probe<Vec<Vec<u8>>>>, 12, enc::<Vec<Vec<u8>>>(3);
    (Probe<u8>, Probe<Vec<u8>>), BTreeMap<Probe<u8>, Probe<Vec<u8>>>, 16, enc::<(u8, Vec<u8>)>(3);
    (Probe<u8>, Probe<Vec<u8>>), Vec<(Probe<u8>, Probe<Vec<u8>>)>, 16, enc::<(u8, Vec<u8>)>(3);
    (Probe<u8>, Probe<Vec<u8>>), B1<(Probe<u8>, Probe<Vec<u8>>)>, 16, enc::<(u8, Vec<u8>)>(3);
}
pub fn run() {
    ty(sx::split(NT))
}
