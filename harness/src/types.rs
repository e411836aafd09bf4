//! Ties the library's Rust types to reference schemas and symbolic values.
use crate::model::{Val, S};
use crate::sx;
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use ssz_derive::{Decode, Encode};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::sync::Arc;
use typenum::Unsigned;

pub trait M: Encode + Decode + PartialEq + Sized {
    fn schema() -> S;
    fn val(&self) -> Val;
    /// an arbitrary value; `d` bounds list lengths
    fn sym(d: usize) -> Self;
    /// in-memory bytes of one element of every list level below this type, summed (for C06's type constant)
    fn heap() -> usize {
        std::mem::size_of::<Self>()
    }
}

macro_rules! m_uint {
    ($($t:ty),*) => { $(
        impl M for $t {
            fn schema() -> S { S::U(std::mem::size_of::<$t>()) }
            fn val(&self) -> Val { Val::u(&self.to_le_bytes()) }
            fn sym(_d: usize) -> Self { <$t>::from_le_bytes(sx::arr()) }
        }
    )* };
}
m_uint!(u8, u16, u32, u64, u128, usize);

impl M for bool {
    fn schema() -> S {
        S::Bool
    }
    fn val(&self) -> Val {
        Val::B(vec![*self as u8])
    }
    fn sym(_d: usize) -> Self {
        sx::bool()
    }
}
impl M for NonZeroUsize {
    fn schema() -> S {
        S::NonZero
    }
    fn val(&self) -> Val {
        Val::u(&self.get().to_le_bytes())
    }
    fn sym(_d: usize) -> Self {
        let x = sx::usize();
        sx::assume(x != 0);
        NonZeroUsize::new(x).unwrap()
    }
}
impl<const N: usize> M for [u8; N] {
    fn schema() -> S {
        S::U(N)
    }
    fn val(&self) -> Val {
        Val::u(&self[..])
    }
    fn sym(_d: usize) -> Self {
        sx::arr()
    }
}
impl<const N: usize> M for FixedBytes<N> {
    fn schema() -> S {
        S::U(N)
    }
    fn val(&self) -> Val {
        Val::u(&self.0[..])
    }
    fn sym(_d: usize) -> Self {
        FixedBytes(sx::arr())
    }
}
impl M for Address {
    fn schema() -> S {
        S::U(20)
    }
    fn val(&self) -> Val {
        Val::u(&self.0 .0[..])
    }
    fn sym(_d: usize) -> Self {
        Address(FixedBytes(sx::arr()))
    }
}
impl M for Bloom {
    fn schema() -> S {
        S::U(256)
    }
    fn val(&self) -> Val {
        Val::u(&self.0 .0[..])
    }
    fn sym(_d: usize) -> Self {
        Bloom(FixedBytes(sx::arr()))
    }
}
fn limbs(l: &[u64]) -> Vec<u8> {
    let mut v = vec![];
    for x in l {
        v.extend_from_slice(&x.to_le_bytes());
    }
    v
}
impl M for U256 {
    fn schema() -> S {
        S::U(32)
    }
    fn val(&self) -> Val {
        Val::B(limbs(self.as_limbs()))
    }
    fn sym(_d: usize) -> Self {
        U256::from_limbs([sx::u64(), sx::u64(), sx::u64(), sx::u64()])
    }
}
impl M for U128 {
    fn schema() -> S {
        S::U(16)
    }
    fn val(&self) -> Val {
        Val::B(limbs(self.as_limbs()))
    }
    fn sym(_d: usize) -> Self {
        U128::from_limbs([sx::u64(), sx::u64()])
    }
}
impl M for Bytes {
    fn schema() -> S {
        S::Bytes
    }
    fn val(&self) -> Val {
        Val::u(&self[..])
    }
    fn sym(d: usize) -> Self {
        let n = sx::choose(d + 2);
        Bytes::from(sx::bytes(n))
    }
}
impl<T: M> M for Option<T> {
    fn schema() -> S {
        S::Union(vec![None, Some(T::schema())])
    }
    fn heap() -> usize {
        std::mem::size_of::<T>() + T::heap()
    }
    fn val(&self) -> Val {
        match self {
            None => Val::Un(0, None),
            Some(x) => Val::Un(1, Some(Box::new(x.val()))),
        }
    }
    fn sym(d: usize) -> Self {
        if sx::choose(2) == 0 {
            None
        } else {
            Some(T::sym(d))
        }
    }
}
impl<T: M> M for Arc<T> {
    fn schema() -> S {
        T::schema()
    }
    fn heap() -> usize {
        std::mem::size_of::<T>() + T::heap()
    }
    fn val(&self) -> Val {
        (**self).val()
    }
    fn sym(d: usize) -> Self {
        Arc::new(T::sym(d))
    }
}
fn list_val<'a, T: M + 'a>(it: impl Iterator<Item = &'a T>) -> Val {
    Val::L(it.map(|x| x.val()).collect())
}
impl<T: M> M for Vec<T> {
    fn schema() -> S {
        S::List(Box::new(T::schema()))
    }
    fn heap() -> usize {
        std::mem::size_of::<T>() + T::heap()
    }
    fn val(&self) -> Val {
        list_val(self.iter())
    }
    fn sym(d: usize) -> Self {
        let n = sx::choose(d + 1);
        (0..n).map(|_| T::sym(d)).collect()
    }
}
impl<T: M, const N: usize> M for SmallVec<[T; N]> {
    fn schema() -> S {
        S::List(Box::new(T::schema()))
    }
    fn heap() -> usize {
        std::mem::size_of::<T>() + T::heap()
    }
    fn val(&self) -> Val {
        list_val(self.iter())
    }
    fn sym(d: usize) -> Self {
        let n = sx::choose(d + 1);
        (0..n).map(|_| T::sym(d)).collect()
    }
}
impl<K: M + Ord, W: M> M for BTreeMap<K, W> {
    fn schema() -> S {
        S::Map(Box::new(K::schema()), Box::new(W::schema()))
    }
    fn heap() -> usize {
        std::mem::size_of::<(K, W)>() + K::heap() + W::heap()
    }
    fn val(&self) -> Val {
        Val::L(self.iter().map(|(k, v)| Val::L(vec![k.val(), v.val()])).collect())
    }
    fn sym(d: usize) -> Self {
        let n = sx::choose(d + 1);
        (0..n).map(|_| (sx::key(|| K::sym(d)), W::sym(d))).collect()
    }
}
impl<T: M + Ord> M for BTreeSet<T> {
    // (keys: see sx::key)
    fn schema() -> S {
        S::Set(Box::new(T::schema()))
    }
    fn heap() -> usize {
        std::mem::size_of::<T>() + T::heap()
    }
    fn val(&self) -> Val {
        list_val(self.iter())
    }
    fn sym(d: usize) -> Self {
        let n = sx::choose(d + 1);
        (0..n).map(|_| sx::key(|| T::sym(d))).collect()
    }
}

/// lengths worth distinguishing for a capacity: everything when small, byte boundaries otherwise
pub fn pick_len(max: usize) -> usize {
    if max <= 20 {
        return sx::choose(max + 1);
    }
    let mut c = vec![0, 1, 7, 8, 9, 15, 16, 17, 24, max / 2, max - 8, max - 1, max];
    c.retain(|x| *x <= max);
    let i = sx::choose(c.len());
    c[i]
}
fn bits_val<'a>(it: impl Iterator<Item = bool> + 'a) -> Val {
    Val::Bits(it.collect())
}
/// wire bytes of an arbitrary bit vector of n bits plus an optional delimiter
pub fn bit_bytes(n: usize, delimiter: bool) -> Vec<u8> {
    let total = if delimiter { n / 8 + 1 } else { std::cmp::max(1, (n + 7) / 8) };
    let mut b = sx::bytes(total);
    if delimiter {
        let m = (1u16 << (n % 8)) as u8;
        b[n / 8] = b[n / 8] & (m - 1) | m;
    } else if n % 8 != 0 {
        b[n / 8] &= (1 << (n % 8)) - 1;
    } else if n == 0 {
        b[0] = 0;
    }
    b
}
impl<N: Unsigned + Clone> M for BitList<N> {
    fn schema() -> S {
        S::BitList(N::to_usize())
    }
    fn heap() -> usize {
        4 // a byte of input is a byte in memory (whatever the capacity)
    }
    fn val(&self) -> Val {
        bits_val(self.iter())
    }
    fn sym(_d: usize) -> Self {
        let n = pick_len(N::to_usize());
        match BitList::from_bytes(SmallVec::from_vec(bit_bytes(n, true))) {
            Ok(x) => {
                sx::check(x.len() == n, "BitList::from_bytes length");
                x
            }
            Err(_) => {
                sx::check(false, "BitList::from_bytes rejects a valid bitlist");
                BitList::with_capacity(0).unwrap()
            }
        }
    }
}
impl<N: Unsigned + Clone> M for BitVector<N> {
    fn schema() -> S {
        S::BitVec(N::to_usize())
    }
    fn heap() -> usize {
        4
    }
    fn val(&self) -> Val {
        bits_val(self.iter())
    }
    fn sym(_d: usize) -> Self {
        match BitVector::from_bytes(SmallVec::from_vec(bit_bytes(N::to_usize(), false))) {
            Ok(x) => x,
            Err(_) => {
                sx::check(false, "BitVector::from_bytes rejects a valid bitvector");
                BitVector::new()
            }
        }
    }
}
impl M for BitVectorDynamic {
    fn schema() -> S {
        S::BitDyn
    }
    fn heap() -> usize {
        4
    }
    fn val(&self) -> Val {
        bits_val(self.iter())
    }
    fn sym(d: usize) -> Self {
        let n = 1 + sx::choose(d + 1);
        match BitVectorDynamic::from_bytes_with_len(sx::bytes(n).into(), n * 8) {
            Ok(x) => x,
            Err(_) => {
                sx::check(false, "BitVectorDynamic::from_bytes_with_len rejects a valid bitvector");
                BitVectorDynamic::new(8).unwrap()
            }
        }
    }
}

macro_rules! m_tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: M),*> M for ($($t,)*) {
            fn schema() -> S { S::Cont(vec![$($t::schema()),*]) }
            fn heap() -> usize { 0 $(+ $t::heap())* }
            fn val(&self) -> Val { Val::L(vec![$(self.$i.val()),*]) }
            fn sym(d: usize) -> Self { ($($t::sym(d),)*) }
        }
    };
}
m_tuple!(A 0, B 1);
m_tuple!(A 0, B 1, C 2);
m_tuple!(A 0, B 1, C 2, D 3);
m_tuple!(A 0, B 1, C 2, D 3, E 4);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

// ------------------------------------------------------------------ derived types
#[macro_export]
macro_rules! container {
    ($(#[$a:meta])* $name:ident { $($(#[$fa:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(ssz_derive::Encode, ssz_derive::Decode, PartialEq, Clone, Debug)]
        $(#[$a])*
        pub struct $name { $($(#[$fa])* pub $f: $t),* }
        impl $crate::types::M for $name {
            fn schema() -> $crate::model::S { $crate::model::S::Cont(vec![$(<$t as $crate::types::M>::schema()),*]) }
            fn heap() -> usize { 1 $(+ <$t as $crate::types::M>::heap())* }
            fn val(&self) -> $crate::model::Val { $crate::model::Val::L(vec![$(self.$f.val()),*]) }
            #[allow(unused_variables)]
            fn sym(d: usize) -> Self { $name { $($f: <$t as $crate::types::M>::sym(d)),* } }
        }
    };
}
#[macro_export]
macro_rules! union_enum {
    ($name:ident { $($v:ident ( $t:ty ) = $i:literal),* $(,)? }) => {
        #[derive(ssz_derive::Encode, ssz_derive::Decode, PartialEq, Clone, Debug)]
        #[ssz(enum_behaviour = "union")]
        pub enum $name { $($v($t)),* }
        impl $crate::types::M for $name {
            fn schema() -> $crate::model::S { $crate::model::S::Union(vec![$(Some(<$t as $crate::types::M>::schema())),*]) }
            fn heap() -> usize { 0 $(+ <$t as $crate::types::M>::heap())* }
            fn val(&self) -> $crate::model::Val {
                match self { $($name::$v(x) => $crate::model::Val::Un($i, Some(Box::new(x.val())))),* }
            }
            fn sym(d: usize) -> Self {
                let n = [$($i),*].len();
                let k = $crate::sx::choose(n);
                $(if k == $i { return $name::$v(<$t as $crate::types::M>::sym(d)); })*
                unreachable!()
            }
        }
    };
}
#[macro_export]
macro_rules! tag_enum {
    ($name:ident { $($v:ident = $i:literal),* $(,)? }) => {
        #[derive(ssz_derive::Encode, ssz_derive::Decode, PartialEq, Clone, Copy, Debug)]
        #[ssz(enum_behaviour = "tag")]
        pub enum $name { $($v),* }
        impl $crate::types::M for $name {
            fn schema() -> $crate::model::S { $crate::model::S::Tag([$($i),*].len()) }
            fn val(&self) -> $crate::model::Val {
                let k: u8 = match self { $($name::$v => $i),* };
                $crate::model::Val::B(vec![k])
            }
            fn sym(_d: usize) -> Self {
                let k = $crate::sx::choose([$($i),*].len());
                $(if k == $i { return $name::$v; })*
                unreachable!()
            }
        }
    };
}

container!(Fix { a: u8, b: u32, c: [u8; 4], d: bool });
container!(FixNest { x: Fix, y: u16, z: Fix });
container!(VarMid { a: u16, b: Vec<u16>, c: u8 });
container!(VarTwo { a: Vec<u8>, b: Vec<u8> });
container!(VarMany { a: Vec<u8>, b: u8, c: Vec<Vec<u8>>, d: u16, e: Option<u8> });
container!(VarNest { a: VarMid, b: u8, c: Vec<VarTwo> });
container!(BitCont { a: BitList<typenum::U9>, b: BitVector<typenum::U9>, c: BitVectorDynamic, d: u8 });
container!(One { a: Vec<u8> });
container!(Empty {});
container!(WithTag { t: Tag3, u: Uni, v: u8 });
container!(AllAlloy { a: Address, b: FixedBytes<4>, c: U256, d: Bytes, e: U128 });
container!(Named { bytes: [u8; 4], len: u16, buf: Vec<u8>, item: u8, offset: u8 });
container!(NamedFix { bytes: [u8; 2], selector: u16, start: u8, end: u8, result: u8 });
container!(Ten { a: u8, b: Vec<u8>, c: Vec<u16>, d: u32, e: Vec<Vec<u8>>, f: bool, g: Option<u16>, h: Vec<u8>, i: u16, j: Bytes, k: u8, l: Vec<u8> });
container!(FixMany { a: u8, b: u16, c: u32, d: u64, e: u128, f: bool, g: [u8; 3], h: Tag3, i: BitVector<U9>, j: u8 });
container!(Deep { a: One, b: Vec<One>, c: Option<One>, d: Vec<Option<One>> });
union_enum!(Uni { A(u8) = 0, B(Vec<u8>) = 1, C(VarMid) = 2 });
union_enum!(UniFix { A(u16) = 0, B(u16) = 1 });
union_enum!(UniOne { A(u32) = 0 });
tag_enum!(Tag3 { A = 0, B = 1, C = 2 });
tag_enum!(Tag1 { A = 0 });

macro_rules! transparent {
    ($name:ident, $t:ty, $make:expr, $get:expr, { $($def:tt)* }) => {
        #[derive(Encode, Decode, PartialEq, Clone, Debug)]
        #[ssz(struct_behaviour = "transparent")]
        $($def)*
        impl M for $name {
            fn schema() -> S { <$t as M>::schema() }
            fn heap() -> usize { <$t as M>::heap() }
            fn val(&self) -> Val { let f: fn(&$name) -> &$t = $get; f(self).val() }
            fn sym(d: usize) -> Self { let f: fn($t) -> $name = $make; f(<$t as M>::sym(d)) }
        }
    };
}
transparent!(Trans, Vec<u16>, |v| Trans { v }, |s| &s.v, { pub struct Trans { pub v: Vec<u16> } });
transparent!(TransFix, u32, |v| TransFix(v), |s| &s.0, { pub struct TransFix(pub u32); });
transparent!(TransSkip, Vec<u8>, |v| TransSkip { s: 0, v }, |s| &s.v, {
    pub struct TransSkip {
        #[ssz(skip_serializing, skip_deserializing)]
        pub s: u16,
        pub v: Vec<u8>,
    }
});

/// container with skipped fields (defaulted on decode)
#[derive(Encode, Decode, PartialEq, Clone, Debug)]
pub struct Skips {
    #[ssz(skip_serializing, skip_deserializing)]
    pub s0: Vec<u8>,
    pub a: u16,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s1: u64,
    pub b: Vec<u8>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s2: bool,
}
impl M for Skips {
    fn schema() -> S {
        S::Cont(vec![u16::schema(), Vec::<u8>::schema()])
    }
    fn heap() -> usize {
        u16::heap() + Vec::<u8>::heap()
    }
    fn val(&self) -> Val {
        Val::L(vec![self.a.val(), self.b.val()])
    }
    fn sym(d: usize) -> Self {
        Skips { s0: vec![], a: u16::sym(d), s1: 0, b: M::sym(d), s2: false }
    }
}

ssz::four_byte_option_impl!(leg_u16, u16);
type VecU16 = Vec<u16>;
ssz::four_byte_option_impl!(leg_vec, VecU16);

#[derive(Encode, Decode, PartialEq, Clone, Debug)]
pub struct Legacy {
    #[ssz(with = "leg_u16")]
    pub a: Option<u16>,
    pub b: u8,
    #[ssz(with = "leg_vec")]
    pub c: Option<Vec<u16>>,
}
impl M for Legacy {
    fn schema() -> S {
        S::Cont(vec![
            S::Legacy(Box::new(u16::schema())),
            S::U(1),
            S::Legacy(Box::new(Vec::<u16>::schema())),
        ])
    }
    fn heap() -> usize {
        u16::heap() + u8::heap() + Vec::<u16>::heap()
    }
    fn val(&self) -> Val {
        Val::L(vec![self.a.val(), self.b.val(), self.c.val()])
    }
    fn sym(d: usize) -> Self {
        Legacy { a: M::sym(d), b: M::sym(d), c: M::sym(d) }
    }
}

#[derive(Encode, Decode, PartialEq, Clone, Debug)]
pub struct Generic<T: Encode + Decode, U: Encode + Decode> {
    pub a: T,
    pub b: U,
    pub c: Option<T>,
}
impl<T: M, U: M> M for Generic<T, U> {
    fn schema() -> S {
        S::Cont(vec![T::schema(), U::schema(), Option::<T>::schema()])
    }
    fn heap() -> usize {
        2 * T::heap() + U::heap() + std::mem::size_of::<T>()
    }
    fn val(&self) -> Val {
        Val::L(vec![self.a.val(), self.b.val(), self.c.val()])
    }
    fn sym(d: usize) -> Self {
        Generic { a: M::sym(d), b: M::sym(d), c: M::sym(d) }
    }
}

// ------------------------------------------------------------------ the family
pub trait Visitor {
    /// `n`: longest byte string to decode, `d`: list length bound for symbolic values
    fn go<T: M>(&self, n: usize, d: usize);
}

macro_rules! family {
    ($fname:ident, $count:ident, $names:ident; $($t:ty, $n:expr, $d:expr;)*) => {
        pub const $names: &[&str] = &[$(stringify!($t)),*];
        pub const $count: usize = $names.len();
        #[allow(unused_assignments)]
        pub fn $fname<Vis: Visitor>(i: usize, v: &Vis) {
            let mut k = 0usize;
            $( if i == k { return v.go::<$t>($n, $d); } k += 1; )*
        }
    };
}

use typenum::{U0, U1, U12, U16, U17, U300, U5, U7, U8, U9};

family! { family, NFAM, NAMES;
    u8, 2, 1;
    u16, 3, 1;
    u32, 5, 1;
    u64, 9, 1;
    u128, 17, 1;
    usize, 9, 1;
    bool, 2, 1;
    NonZeroUsize, 9, 1;
    [u8; 4], 5, 1;
    [u8; 1], 2, 1;
    [u8; 32], 33, 1;
    FixedBytes<4>, 5, 1;
    FixedBytes<32>, 33, 1;
    Address, 21, 1;
    Bloom, 257, 1;
    U256, 33, 1;
    U128, 17, 1;
    Bytes, 6, 4;
    Vec<u8>, 6, 4;
    Vec<u16>, 9, 4;
    Vec<bool>, 4, 3;
    Vec<u64>, 17, 3;
    Vec<U256>, 65, 3;
    Vec<[u8; 3]>, 10, 3;
    Vec<Vec<u8>>, 14, 3;
    Vec<Vec<u16>>, 14, 3;
    Vec<Vec<Vec<u8>>>, 14, 2;
    Vec<Bytes>, 14, 3;
    SmallVec<[u16; 2]>, 9, 4;
    SmallVec<[Vec<u8>; 2]>, 14, 3;
    Option<u16>, 5, 1;
    Option<Vec<u8>>, 6, 3;
    Option<Option<bool>>, 5, 1;
    Vec<Option<u8>>, 12, 3;
    Arc<u32>, 5, 1;
    Arc<Vec<u16>>, 7, 3;
    (u8, u16), 4, 1;
    (u8, Vec<u8>), 9, 3;
    (Vec<u8>, u16), 9, 3;
    (Vec<u8>, Vec<u16>, u8), 14, 2;
    (u8, bool, u16, u32), 9, 1;
    (u8, Vec<u8>, u8, Vec<u8>, u8), 16, 2;
    (u8, u8, u8, u8, u8, Vec<u8>), 13, 3;
    (u8, u16, u8, u16, u8, u16, u8), 11, 1;
    (u8, u8, u8, u8, u8, u8, u8, Vec<u16>), 16, 3;
    (u8, u8, u8, u8, u8, u8, u8, u8, u8), 10, 1;
    (Vec<u8>, u8, u8, u8, u8, u8, u8, u8, u8, Vec<u8>), 20, 2;
    (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), 12, 1;
    (u8, u8, u8, u8, Vec<u8>, u8, u8, u8, u8, u8, u8, u16), 20, 3;
    Vec<(u8, u16)>, 9, 3;
    Vec<(u8, Vec<u8>)>, 19, 2;
    BitList<U0>, 2, 1;
    BitList<U1>, 2, 1;
    BitList<U7>, 2, 1;
    BitList<U8>, 3, 1;
    BitList<U9>, 3, 1;
    BitList<U16>, 4, 1;
    BitList<U17>, 4, 1;
    BitList<U300>, 40, 1;
    BitVector<U0>, 2, 1;
    BitVector<U1>, 2, 1;
    BitVector<U7>, 2, 1;
    BitVector<U8>, 2, 1;
    BitVector<U9>, 3, 1;
    BitVector<U16>, 3, 1;
    BitVector<U17>, 4, 1;
    BitVector<U300>, 39, 1;
    BitVectorDynamic, 4, 3;
    Vec<BitList<U5>>, 11, 2;
    Vec<BitVector<U12>>, 5, 3;
    Fix, 11, 1;
    FixNest, 24, 1;
    FixMany, 41, 1;
    Deep, 24, 1;
    Ten, 42, 1;
    Vec<Fix>, 21, 2;
    VarMid, 12, 3;
    VarTwo, 12, 3;
    VarMany, 26, 2;
    VarNest, 24, 1;
    Vec<VarTwo>, 21, 2;
    BitCont, 15, 1;
    One, 8, 3;
    Option<VarTwo>, 11, 2;
    WithTag, 13, 2;
    AllAlloy, 78, 2;
    Named, 15, 2;
    NamedFix, 8, 1;
    Uni, 11, 2;
    UniFix, 4, 1;
    UniOne, 6, 1;
    Vec<Uni>, 12, 2;
    Tag3, 2, 1;
    Tag1, 2, 1;
    Vec<Tag3>, 3, 3;
    Trans, 5, 3;
    TransFix, 5, 1;
    TransSkip, 5, 3;
    Vec<Trans>, 11, 2;
    Skips, 9, 3;
    Legacy, 19, 2;
    Generic<u8, Vec<u8>>, 13, 2;
    Generic<Vec<u8>, u16>, 15, 2;
    (u8, [u8; 0], [u8; 2]), 4, 1;
    ([u8; 0], Vec<u8>, u8), 8, 2;
    [u8; 20], 21, 1;
    [u8; 48], 49, 1;
    FixedBytes<20>, 21, 1;
    FixedBytes<48>, 49, 1;
    Vec<u32>, 9, 3;
    Vec<u128>, 33, 2;
    Vec<NonZeroUsize>, 17, 2;
    Vec<Address>, 41, 2;
    Vec<FixedBytes<4>>, 9, 2;
    Vec<Arc<u16>>, 5, 2;
    Vec<BitVectorDynamic>, 11, 2;
    Option<BitList<U9>>, 4, 1;
    SmallVec<[u8; 4]>, 6, 5;
    SmallVec<[Fix; 2]>, 21, 3;
}

// ordered collections (C02 and the reverse direction of C04 are not claimed for them)
family! { family_maps, NMAPS, MAP_NAMES;
    BTreeMap<u8, u8>, 7, 3;
    BTreeMap<u16, Vec<u8>>, 22, 2;
    BTreeMap<Vec<u8>, u8>, 19, 2;
    BTreeMap<Vec<u8>, Vec<u8>>, 22, 2;
    BTreeMap<u8, bool>, 5, 3;
    BTreeSet<u8>, 4, 3;
    BTreeSet<u16>, 7, 3;
    BTreeSet<Vec<u8>>, 12, 3;
    BTreeSet<(u8, u8)>, 5, 2;
    Vec<BTreeSet<u8>>, if sx::THOROUGH { 11 } else { 9 }, 2;
    BTreeMap<u8, BTreeSet<u8>>, if sx::THOROUGH { 15 } else { 13 }, 2;
}

/// input lengths to explore for a type: all up to n, thinned for long fixed-size types
pub fn lengths<T: M>(n: usize) -> Vec<usize> {
    match crate::model::fixed(&T::schema()) {
        Some(k) if k > 12 => vec![0, 1, 4, 8, k - 1, k, k + 1],
        _ => (0..=n).collect(),
    }
}

/// input lengths to explore for `(u8, T, Vec<u8>)`: around the first ones that can be valid
pub fn wrapped_lengths<T: M>(n: usize) -> Vec<usize> {
    match crate::model::fixed(&T::schema()) {
        Some(k) if k > 40 => vec![k + 4, k + 5, k + 6],
        Some(k) => vec![5, k + 4, k + 5, k + 6, k + 7],
        _ => {
            let m = if crate::sx::THOROUGH { n + 11 } else { 9 + n.min(6) };
            (8..=m).collect()
        }
    }
}

/// larger shapes: deterministic structure (mode 1: symbolic contents; mode 2: concrete contents)
pub trait Big {
    fn go<T: M>(&self, d: usize);
}
macro_rules! big {
    ($($t:ty, $d:expr;)*) => {
        pub const BIG_NAMES: &[&str] = &[$(stringify!($t)),*];
        pub const NBIG: usize = BIG_NAMES.len();
        #[allow(unused_assignments)]
        pub fn big<Vis: Big>(i: usize, v: &Vis) {
            let mut k = 0usize;
            $( if i == k { return v.go::<$t>($d); } k += 1; )*
        }
    };
}
big! {
    Vec<Vec<u8>>, 9;
    Vec<Vec<u16>>, 6;
    Vec<Vec<Vec<u8>>>, 4;
    Vec<Bytes>, 8;
    SmallVec<[Vec<u8>; 2]>, 7;
    Vec<(u8, Vec<u8>)>, 5;
    Vec<(Vec<u8>, u8, Vec<u8>)>, 4;
    Vec<Option<Vec<u8>>>, 7;
    Vec<Option<Option<u16>>>, 9;
    (u8, Vec<u8>, u16, Vec<u8>, u8, Vec<u8>, u32, Vec<u8>, u8, Vec<u8>, u8, Vec<u8>), 4;
    (Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>), 4;
    VarMany, 5;
    VarNest, 3;
    Vec<VarMid>, 5;
    Vec<VarTwo>, 5;
    Ten, 4;
    FixMany, 2;
    Vec<FixMany>, 3;
    Deep, 4;
    Vec<Uni>, 6;
    Vec<BitList<U9>>, 9;
    BitCont, 3;
    Vec<BitVectorDynamic>, 6;
    AllAlloy, 6;
    Vec<Fix>, 6;
    Legacy, 6;
    Vec<Legacy>, 3;
    Vec<Skips>, 4;
    Generic<Vec<Vec<u8>>, VarTwo>, 4;
    Arc<Vec<Arc<Vec<u8>>>>, 7;
    BitList<U300>, 1;
    Vec<u64>, 20;
    Vec<U256>, 5;
    Vec<u8>, 200;
    Bytes, 150;
}
macro_rules! big_maps {
    ($($t:ty, $d:expr;)*) => {
        pub const NBIGMAPS: usize = [$(stringify!($t)),*].len();
        #[allow(unused_assignments)]
        pub fn big_maps<Vis: Big>(i: usize, v: &Vis) {
            let mut k = 0usize;
            $( if i == k { return v.go::<$t>($d); } k += 1; )*
        }
    };
}
big_maps! {
    BTreeMap<u8, u16>, if sx::THOROUGH { 14 } else { 10 };
    BTreeMap<u16, Vec<u8>>, 6;
    BTreeMap<Vec<u8>, Vec<u8>>, 5;
    BTreeSet<u16>, if sx::THOROUGH { 10 } else { 7 };
    BTreeSet<Vec<u8>>, 6;
    Vec<BTreeMap<u8, u8>>, 5;
}

/// a valid encoding of a deterministic value of T with one symbolic disturbance
pub fn near<T: M>(seed: u32, d: usize, maxlen: usize) -> Vec<u8> {
    sx::mode(2, seed);
    let v = T::sym(d);
    let e = crate::model::encode(&T::schema(), &v.val());
    sx::mode(0, 0);
    disturb(e, maxlen)
}
pub fn disturb(mut e: Vec<u8>, maxlen: usize) -> Vec<u8> {
    let n = e.len();
    let kinds = if n > maxlen || n < 4 { 2 } else { 4 };
    match sx::split(kinds) {
        0 => {
            // truncated or extended
            let k = sx::split(if sx::THOROUGH { 13 } else { 11 });
            if k < 7 {
                e.truncate(n.saturating_sub(k));
            } else {
                e.extend_from_slice(&sx::bytes(k - 6));
            }
        }
        1 => {
            // one symbolic 4-byte window at an (aligned for long inputs) position
            let step = if n > maxlen { n / maxlen + 1 } else { 1 };
            let p = step * sx::split(n / step + 1);
            let w = sx::bytes(4);
            for i in 0..4 {
                if p + i < n {
                    e[p + i] = w[i];
                }
            }
        }
        2 => {
            // one byte removed
            let p = sx::split(n);
            e.remove(p);
        }
        _ => {
            // one symbolic byte inserted
            let p = sx::split(n + 1);
            e.insert(p, sx::u8());
        }
    }
    e
}

/// payloads beyond two-byte offsets
pub trait Huge {
    fn go<T: M>(&self, v: T);
}
pub const NHUGE: usize = 5;
pub fn huge<Vis: Huge>(i: usize, v: &Vis) {
    let mut b = vec![7u8; 66_000];
    b[65_535] = sx::u8();
    b[65_999] = sx::u8();
    match i {
        0 => v.go(VarTwo { a: b, b: sx::bytes(2) }),
        1 => v.go((sx::u8(), b, sx::u16(), sx::bytes(3))),
        2 => v.go(vec![b, sx::bytes(2), vec![], sx::bytes(1)]),
        3 => v.go(vec![(sx::u8(), b), (sx::u8(), sx::bytes(2))]),
        _ => v.go(VarMany { a: b, b: sx::u8(), c: vec![sx::bytes(1), sx::bytes(2)], d: sx::u16(), e: Some(sx::u8()) }),
    }
}

/// long lists: an element type and a count
pub trait Long {
    /// all: every item symbolic
    fn go<T: M>(&self, n: usize, all: bool);
}
macro_rules! long {
    ($($t:ty, $n:expr, $a:expr;)*) => {
        pub const NLONG: usize = [$(stringify!($t)),*].len();
        #[allow(unused_assignments)]
        pub fn long<Vis: Long>(i: usize, v: &Vis) {
            let mut k = 0usize;
            $( if i == k { return v.go::<$t>($n, $a); } k += 1; )*
        }
    };
}
long! {
    u16, 300, true;
    bool, 140, true;
    u64, 70, true;
    [u8; 3], 100, true;
    Vec<u8>, 300, true;
    Vec<u16>, 70, true;
    (u8, Vec<u8>), 70, true;
    Option<u16>, 140, true;
    Uni, 40, true;
    Tag3, 70, true;
    BitList<U9>, 70, true;
    Fix, 40, false;
    NamedFix, 40, true;
    [u8; 32], 40, true;
    BitVector<U9>, 70, true;
    VarTwo, 40, true;
    Vec<Vec<u8>>, 40, true;
}
/// n items with symbolic contents
pub fn long_value<T: M>(n: usize, all: bool, seed: u32) -> Vec<T> {
    sx::mode(1, seed);
    // (or symbolic where a chunked loop would begin or end, constants between, where every item forks)
    let v = (0..n)
        .map(|i| {
            let at = all || [0, 1, 8, 31, 32, 64, 128, 256].contains(&i) || i + 2 >= n;
            sx::mode(if at { 1 } else { 2 }, seed + i as u32);
            T::sym(2)
        })
        .collect();
    sx::mode(0, 0);
    v
}
/// the encoding of n concrete items with one symbolic window, or a changed length
pub fn long_bytes<T: M>(n: usize, seed: u32) -> Vec<u8> {
    sx::mode(2, seed);
    let v: Vec<T> = (0..n).map(|_| T::sym(2)).collect();
    let mut e = crate::model::encode(&Vec::<T>::schema(), &v.val());
    sx::mode(0, 0);
    let words = if crate::model::fixed(&T::schema()).is_some() { e.len() / 4 } else { n };
    let mut at = if sx::THOROUGH {
        vec![0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, words / 2, words - 2, words - 1, words, e.len() / 4 - 1]
    } else {
        vec![0, 1, 8, 16, 32, 64, 128, 256, words / 2, words - 1, e.len() / 4 - 1]
    };
    at.retain(|i| 4 * i + 4 <= e.len());
    at.sort();
    at.dedup();
    let k = sx::split(at.len() + 3);
    match k.checked_sub(at.len()) {
        None => {
            let w = sx::bytes(4);
            if crate::model::fixed(&T::schema()).is_none() && at[k] < n {
                // an offset: any value near the right one or the ends, or beyond
                let (o, m) = (u32::from_le_bytes([w[0], w[1], w[2], w[3]]), e.len() as u32);
                let was = u32::from_le_bytes(e[4 * at[k]..4 * at[k] + 4].try_into().unwrap());
                let near = if sx::THOROUGH { 12 } else { 4 };
                sx::assume((o <= 12) | (o.wrapping_sub(was).wrapping_add(near) <= 2 * near) | (o >= m - 2) | (o.wrapping_sub(4 * n as u32).wrapping_add(near) <= 2 * near));
            }
            e[4 * at[k]..4 * at[k] + 4].copy_from_slice(&w);
        }
        Some(0) => {
            e.pop();
        }
        Some(1) => e.push(sx::u8()),
        _ => {
            let n = e.len();
            let w = sx::bytes(2);
            e[n - 2..].copy_from_slice(&w);
        }
    }
    e
}
