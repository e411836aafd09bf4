//! C15: union selectors are the declaration index; every other selector byte is rejected.
use crate::model::{self, Val, S};
use crate::sx;
use crate::types::{Empty, M};
use crate::{container, union_enum};
use ssz::{BitList, BitVector, Decode, Encode, UnionSelector};
use typenum::{U5, U9};

container!(Fix2 { a: u8, b: bool });
container!(Var2 { a: u8, b: Vec<u8> });
union_enum!(Inner { A(u8) = 0, B(Vec<u8>) = 1 });

pub trait U: Encode + Decode + PartialEq + Sized {
    const V: usize;
    fn inner(i: usize) -> Option<S>;
    fn iv(&self) -> (usize, Option<Val>);
    fn make(i: usize, d: usize) -> Self;
}
macro_rules! un {
    ($name:ident { $($v:ident ( $t:ty ) = $i:literal),* $(,)? }) => {
        un!(@def { #[ssz(enum_behaviour = "union")] pub enum $name { $($v($t)),* } } $name { $($v ( $t ) = $i),* });
    };
    (@def { $($def:tt)* } $name:ty { $($v:ident ( $t:ty ) = $i:literal),* }) => {
        #[derive(ssz_derive::Encode, ssz_derive::Decode, PartialEq, Clone, Debug)]
        $($def)*
        impl U for $name {
            const V: usize = [$($i),*].len();
            fn inner(i: usize) -> Option<S> {
                match i { $($i => Some(<$t as M>::schema()),)* _ => unreachable!() }
            }
            fn iv(&self) -> (usize, Option<Val>) {
                match self { $(Self::$v(x) => ($i, Some(x.val()))),* }
            }
            fn make(i: usize, d: usize) -> Self {
                match i { $($i => Self::$v(<$t as M>::sym(d)),)* _ => unreachable!() }
            }
        }
    };
}
impl<T: M> U for Option<T> {
    const V: usize = 2;
    fn inner(i: usize) -> Option<S> {
        (i == 1).then(T::schema)
    }
    fn iv(&self) -> (usize, Option<Val>) {
        match self {
            None => (0, None),
            Some(x) => (1, Some(x.val())),
        }
    }
    fn make(i: usize, d: usize) -> Self {
        (i == 1).then(|| T::sym(d))
    }
}
// declaration order, not names or discriminants, decides
un!(@def {
    #[ssz(enum_behaviour = "union")]
    #[repr(u8)]
    pub enum Repr { Z(u8) = 9, A(u8) = 3, M(u16) = 0, B(Vec<u8>) = 200 }
} Repr { Z(u8) = 0, A(u8) = 1, M(u16) = 2, B(Vec<u8>) = 3 });
un!(@def {
    #[ssz(enum_behaviour = "union")]
    pub enum Gen<T: Encode + Decode, X> where X: Encode + Decode { B(X), A(T), C(Vec<X>) }
} Gen<u16, Vec<u8>> { B(Vec<u8>) = 0, A(u16) = 1, C(Vec<Vec<u8>>) = 2 });
// the same body everywhere: only the selector tells the variants apart
un!(Same { B(Vec<u8>) = 0, A(Vec<u8>) = 1, D(Vec<u8>) = 2, C(Vec<u8>) = 3, E(Vec<u8>) = 4 });

fn body(i: Option<S>, b: &[u8]) -> Option<Option<Val>> {
    match i {
        None => b.is_empty().then_some(None),
        Some(s) => model::decode(&s, b).map(Some),
    }
}
fn same(a: &Option<Val>, b: &Option<Val>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => model::eq(a, b),
        _ => false,
    }
}
fn dec<T: U>(n: usize) {
    let b = sx::bytes(n);
    let r = T::from_ssz_bytes(&b);
    if n == 0 {
        sx::cover(1);
        sx::check(r.is_err(), "an empty union encoding is accepted");
        return;
    }
    match r {
        Ok(v) => {
            sx::cover(2);
            let (i, x) = v.iv();
            sx::check((b[0] as usize) < T::V, "a selector that names no variant is accepted");
            sx::check(b[0] <= 127, "a selector above 127 is accepted");
            sx::check(b[0] as usize == i, "a selector decodes to another variant");
            match body(T::inner(i), &b[1..]) {
                Some(w) => sx::check(same(&w, &x), "the body decodes to another value"),
                None => sx::check(false, "an invalid body is accepted"),
            }
            sx::out(&[i as u8]);
            let e = v.as_ssz_bytes();
            sx::same(&e, &b, "a decoded union does not encode to its input");
        }
        Err(_) => {
            let s = b[0] as usize;
            if s >= T::V {
                sx::cover(3);
                return;
            }
            for i in 0..T::V {
                if s == i {
                    sx::cover(4);
                    sx::check(body(T::inner(i), &b[1..]).is_none(), "a declared selector with a valid body is rejected");
                    return;
                }
            }
        }
    }
}
fn enc<T: U>() {
    let i = sx::choose(T::V);
    let v = T::make(i, 2);
    let (k, x) = v.iv();
    sx::check(k == i, "harness");
    let mut w = vec![i as u8];
    if let (Some(s), Some(x)) = (T::inner(i), &x) {
        w.extend_from_slice(&model::encode(&s, x));
    }
    let e = v.as_ssz_bytes();
    sx::cover(5);
    sx::check(!e.is_empty() && e[0] as usize == i, "the first byte is not the declaration index");
    sx::same(&e, &w, "a union encoding is not selector ++ body");
    sx::check(v.ssz_bytes_len() == w.len(), "a union predicts another size");
    let mut p = vec![0xee; 2];
    v.ssz_append(&mut p);
    sx::check(p[0] == 0xee && p[1] == 0xee, "ssz_append changes earlier bytes");
    sx::same(&p[2..], &w, "a union appends something else than its encoding");
    sx::check(!<T as Encode>::is_ssz_fixed_len() && !<T as Decode>::is_ssz_fixed_len(), "a union claims to be fixed-size");
    match T::from_ssz_bytes(&w) {
        Ok(d) => {
            let (j, y) = d.iv();
            sx::check(j == i, "a union decodes to another variant");
            sx::check(same(&x, &y), "a union decodes to another value");
        }
        Err(_) => sx::check(false, "a union encoding is rejected"),
    }
    sx::out(&w);
}
fn go<T: U>() {
    match sx::split(8) {
        7 => enc::<T>(),
        n => dec::<T>(n),
    }
}
fn selector() {
    let s = sx::u8();
    match UnionSelector::new(s) {
        Ok(x) => {
            sx::cover(6);
            sx::check(s <= 127, "UnionSelector::new accepts a selector above 127");
            let y = sx::u8();
            sx::check((x == y) == (s == y), "comparing a UnionSelector");
            sx::check(u8::from(x) == s, "a UnionSelector holds another byte");
        }
        Err(_) => {
            sx::cover(7);
            sx::check(s > 127, "UnionSelector::new rejects a selector of at most 127")
        }
    }
    sx::check(ssz::MAX_UNION_SELECTOR == 127, "MAX_UNION_SELECTOR");
}
fn split() {
    let ls = [0, 1, 2, 3, 4, 5, 8, 9, 33, 300];
    let n = ls[sx::choose(ls.len())];
    let b = sx::bytes(n);
    let keep = b.clone();
    match ssz::split_union_bytes(&b) {
        Ok((s, rest)) => {
            sx::cover(8);
            sx::check(n > 0, "split_union_bytes accepts empty input");
            if n == 0 {
                return;
            }
            sx::check(b[0] <= 127, "split_union_bytes accepts a selector above 127");
            sx::check(u8::from(s) == b[0], "split_union_bytes returns another selector");
            sx::check(rest.len() == n - 1, "split_union_bytes returns another length");
            sx::check(rest.as_ptr() == unsafe { b.as_ptr().add(1) }, "split_union_bytes returns other bytes");
            sx::same(rest, &keep[1..], "split_union_bytes changes the body");
        }
        Err(_) => {
            sx::cover(9);
            sx::check(n == 0 || b[0] > 127, "split_union_bytes rejects a valid selector")
        }
    }
}
macro_rules! table {
    ($f:ident $n:ident { $($t:ty;)* }) => {
        const $n: usize = [$(stringify!($t)),*].len();
        #[allow(unused_assignments)]
        fn $f(i: usize) {
            let mut k = 0usize;
            $( if i == k { return go::<$t>(); } k += 1; )*
        }
    };
}
macro_rules! gens {
    ($($t:tt)*) => { table! { gens NGEN { $($t)* } } };
}
include!(concat!(env!("SX_GEN"), "/unions.rs"));
table! { others NOTHER {
    Option<u8>;
    Option<u16>;
    Option<bool>;
    Option<Vec<u8>>;
    Option<[u8; 3]>;
    Option<Empty>;
    Option<Option<u8>>;
    Option<Option<Vec<u8>>>;
    Option<Inner>;
    Option<Var2>;
    Option<BitList<U9>>;
    Option<BitVector<U5>>;
    Option<(u8, bool)>;
    Option<std::sync::Arc<u16>>;
    Repr;
    Gen<u16, Vec<u8>>;
    Same;
} }
pub fn run() {
    match sx::split(3) {
        0 => gens(sx::split(NGEN)),
        1 => others(sx::split(NOTHER)),
        _ => match sx::split(2) {
            0 => selector(),
            _ => split(),
        },
    }
}
