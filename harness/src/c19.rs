//! C19: ordered maps and sets encode as sorted entry lists and decode by collection.
use crate::model::{self, Val, S};
use crate::sx;
use crate::types::{disturb, Fix, VarTwo, M};
use alloy_primitives::{Bytes, FixedBytes, U256};
use ssz::{BitList, BitVector, Decode, Encode};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::sync::Arc;
use typenum::{U3, U9};

pub trait C: Encode + Decode + PartialEq + Sized {
    type K: M + Ord;
    /// the entry schema, key and value of every entry in iteration order
    fn entry() -> S;
    const MAP: bool;
    fn entries(&self) -> Vec<(Val, Option<Val>)>;
    fn ascending(&self) -> bool;
    fn make(d: usize) -> Self;
}
impl<K: M + Ord, V: M> C for BTreeMap<K, V> {
    type K = K;
    const MAP: bool = true;
    fn entry() -> S {
        S::Cont(vec![K::schema(), V::schema()])
    }
    fn entries(&self) -> Vec<(Val, Option<Val>)> {
        self.iter().map(|(k, v)| (k.val(), Some(v.val()))).collect()
    }
    fn ascending(&self) -> bool {
        self.keys().zip(self.keys().skip(1)).all(|(a, b)| a < b)
    }
    fn make(d: usize) -> Self {
        M::sym(d)
    }
}
impl<K: M + Ord> C for BTreeSet<K> {
    type K = K;
    const MAP: bool = false;
    fn entry() -> S {
        K::schema()
    }
    fn entries(&self) -> Vec<(Val, Option<Val>)> {
        self.iter().map(|k| (k.val(), None)).collect()
    }
    fn ascending(&self) -> bool {
        self.iter().zip(self.iter().skip(1)).all(|(a, b)| a < b)
    }
    fn make(d: usize) -> Self {
        M::sym(d)
    }
}
fn listed<T: C>(v: Val) -> Vec<(Val, Option<Val>)> {
    let v = match v {
        Val::L(v) => v,
        _ => unreachable!(),
    };
    v.into_iter()
        .map(|e| match e {
            Val::L(mut kv) if T::MAP => {
                let b = kv.pop().unwrap();
                (kv.pop().unwrap(), Some(b))
            }
            e => (e, None),
        })
        .collect()
}
fn same(a: &(Val, Option<Val>), b: &(Val, Option<Val>)) -> bool {
    model::eq(&a.0, &b.0)
        & match (&a.1, &b.1) {
            (Some(x), Some(y)) => model::eq(x, y),
            _ => true,
        }
}
/// the reference encoding of the entries in the order given
fn list_of<T: C>(es: &[(Val, Option<Val>)]) -> Vec<u8> {
    let l = es
        .iter()
        .map(|(k, v)| match v {
            Some(v) => Val::L(vec![k.clone(), v.clone()]),
            None => k.clone(),
        })
        .collect();
    model::encode(&S::List(Box::new(T::entry())), &Val::L(l))
}
/// everything that has to hold for a collection that exists
fn fine<T: C>(c: &T) {
    sx::check(c.ascending(), "a collection is not in ascending key order");
    let es = c.entries();
    let w = list_of::<T>(&es);
    sx::check(c.ssz_bytes_len() == w.len(), "a collection predicts another size than its entry list has");
    let e = c.as_ssz_bytes();
    sx::same(&e, &w, "a collection does not encode as the list of its entries in ascending key order");
    match T::from_ssz_bytes(&w) {
        Ok(d) => {
            let ds = d.entries();
            sx::check(ds.len() == es.len(), "decoding an encoding yields another number of entries");
            if ds.len() == es.len() {
                let mut r = true;
                for i in 0..es.len() {
                    r &= same(&es[i], &ds[i]);
                }
                sx::check(r, "decoding an encoding yields another collection");
            }
            let f = d.as_ssz_bytes();
            sx::same(&f, &w, "re-encoding a decoded collection is not a fixed point");
        }
        Err(_) => sx::check(false, "the encoding of a collection is rejected"),
    }
    sx::out(&w);
}
fn enc<T: C>(d: usize) {
    let c = T::make(d);
    sx::cover(1);
    fine(&c);
    let mut p = vec![0xee; 5];
    c.ssz_append(&mut p);
    let w = list_of::<T>(&c.entries());
    sx::check(p[..5] == [0xee; 5], "ssz_append of a collection changes earlier bytes");
    sx::same(&p[5..], &w, "ssz_append of a collection appends something else than its encoding");
    sx::check(!<T as Encode>::is_ssz_fixed_len() && !<T as Decode>::is_ssz_fixed_len(), "a collection claims to be fixed-size");
    sx::check(<T as Encode>::ssz_fixed_len() == 4 && <T as Decode>::ssz_fixed_len() == 4, "the fixed part of a collection is not an offset");
}
fn dec<T: C>(b: &[u8]) {
    let list = S::List(Box::new(T::entry()));
    // (collections within the entries are collected, too)
    let want = model::decode(&list, b).and_then(|w| model::collect(&list, w));
    sx::allow_panic(want.is_none());
    let got = T::from_ssz_bytes(b);
    sx::allow_panic(false);
    match (want, got) {
        (Some(w), Ok(c)) => {
            sx::cover(2);
            let l = listed::<T>(w);
            // a later entry replaces an earlier one with the same key
            let mut keep: Vec<&(Val, Option<Val>)> = vec![];
            for i in 0..l.len() {
                let mut again = false;
                for j in i + 1..l.len() {
                    again |= model::eq(&l[i].0, &l[j].0);
                }
                if again {
                    sx::cover(3);
                } else {
                    keep.push(&l[i]);
                }
            }
            let es = c.entries();
            sx::check(es.len() == keep.len(), "a decoded collection has another number of entries than the list has keys");
            for e in &es {
                let mut found = false;
                for k in &keep {
                    found |= same(e, k);
                }
                sx::check(found, "a decoded collection holds an entry that is not the last listed one of its key");
            }
            sx::check(c.ascending(), "a decoded collection is not in ascending key order");
            let e1 = c.as_ssz_bytes();
            sx::same(&e1, &list_of::<T>(&es), "a decoded collection does not encode as the sorted list of its entries");
            match T::from_ssz_bytes(&e1) {
                Ok(d) => {
                    let f = d.as_ssz_bytes();
                    sx::same(&f, &e1, "re-encoding a decoded collection is not a fixed point");
                }
                Err(_) => sx::check(false, "the encoding of a decoded collection is rejected"),
            }
            sx::out(&e1);
        }
        (None, Err(_)) => sx::cover(4),
        (Some(_), Err(_)) => sx::check(false, "a well-formed entry list is rejected"),
        (None, Ok(_)) => sx::check(false, "a malformed entry list is accepted"),
    }
}
fn go<T: C>(n: usize, d: usize) {
    match sx::split(3) {
        0 => enc::<T>(d),
        1 => {
            let n = sx::split(n + if sx::THOROUGH { 3 } else { 1 });
            dec::<T>(&sx::bytes(n))
        }
        _ => {
            // a longer list (concrete but for one disturbance), its entries in any order and with repetitions
            sx::mode(2, sx::SEED);
            let a = T::make(3);
            let b = T::make(2);
            let mut es = a.entries();
            es.reverse();
            es.extend(b.entries());
            if let Some(e) = es.first().cloned() {
                es.push(e);
            }
            let e = list_of::<T>(&es);
            sx::mode(0, 0);
            dec::<T>(&disturb(e, if sx::THOROUGH { 64 } else { 28 }))
        }
    }
}
macro_rules! table {
    ($($t:ty, $n:expr, $d:expr;)*) => {
        const NT: usize = [$(stringify!($t)),*].len();
        #[allow(unused_assignments)]
        fn ty(i: usize) {
            let mut k = 0usize;
            $( if i == k { return go::<$t>($n, $d); } k += 1; )*
        }
    };
}
table! {
    // fixed-size keys and values
    BTreeMap<u8, u8>, 7, 3;
    BTreeMap<u16, u32>, 13, 3;
    BTreeMap<[u8; 2], bool>, 7, 3;
    BTreeMap<bool, u16>, 7, 3;
    BTreeMap<(u8, u8), u8>, 7, 2;
    BTreeMap<NonZeroUsize, u8>, 19, 2;
    BTreeMap<FixedBytes<4>, u16>, 13, 2;
    BTreeMap<Arc<u16>, u8>, 7, 3;
    BTreeMap<u8, Fix>, 23, 2;
    BTreeMap<u8, BitVector<U3>>, 5, 3;
    BTreeMap<u64, U256>, 41, 2;
    BTreeMap<[u8; 0], u8>, 4, 2;
    // variable-size values
    BTreeMap<u8, Vec<u8>>, 20, 2;
    BTreeMap<u16, Option<u8>>, 20, 2;
    BTreeMap<u8, VarTwo>, 21, 1;
    BTreeMap<u8, BTreeSet<u8>>, 13, 2;
    BTreeMap<u8, BTreeMap<u8, u8>>, 14, 2;
    BTreeMap<u8, Bytes>, 20, 2;
    BTreeMap<u8, BitList<U9>>, 12, 2;
    // variable-size keys
    BTreeMap<Vec<u8>, u8>, 19, 2;
    BTreeMap<Option<u8>, u8>, 20, 2;
    BTreeMap<BTreeSet<u8>, u8>, 13, 2;
    // both
    BTreeMap<Vec<u8>, Vec<u8>>, 18, 2;
    BTreeMap<Vec<u16>, Option<u8>>, 16, 2;
    // sets
    BTreeSet<u8>, 4, 3;
    BTreeSet<u16>, 7, 3;
    BTreeSet<u64>, 17, 3;
    BTreeSet<bool>, 4, 3;
    BTreeSet<[u8; 3]>, 7, 3;
    BTreeSet<FixedBytes<32>>, 65, 2;
    BTreeSet<(u8, u8)>, 5, 2;
    BTreeSet<NonZeroUsize>, 17, 2;
    BTreeSet<Arc<u8>>, 4, 3;
    BTreeSet<Vec<u8>>, 12, 3;
    BTreeSet<Vec<u16>>, 13, 2;
    BTreeSet<Option<u8>>, 13, 3;
    BTreeSet<(u8, Vec<u8>)>, 18, 2;
    BTreeSet<BTreeSet<u8>>, 9, 2;
    BTreeSet<Vec<Vec<u8>>>, 14, 1;
}
pub fn run() {
    ty(sx::split(NT))
}
