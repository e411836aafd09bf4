//! C17: the legacy four-byte-selector Option codec is exact and strict, standalone and as a field codec.
use crate::model::{self, S};
use crate::sx;
use crate::types::{disturb, near, Empty, Fix, Tag3, Trans, Uni, VarMid, VarTwo, M};
use alloy_primitives::{Bytes, U256};
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, DecodeError, Encode};
use ssz_derive::{Decode, Encode};
use std::sync::Arc;
use typenum::{U5, U9};

/// one generated module
pub trait Leg {
    type T: M;
    fn e_fixed() -> (bool, usize);
    fn d_fixed() -> (bool, usize);
    fn size(o: &Option<Self::T>) -> usize;
    fn append(o: &Option<Self::T>, buf: &mut Vec<u8>);
    fn bytes(o: &Option<Self::T>) -> Vec<u8>;
    fn from(b: &[u8]) -> Result<Option<Self::T>, DecodeError>;
}
macro_rules! legs {
    ($($m:ident $n:ident $t:ty, $len:expr;)*) => {
        $(
            ssz::four_byte_option_impl!($m, $t);
            pub struct $n;
            impl Leg for $n {
                type T = $t;
                fn e_fixed() -> (bool, usize) { ($m::encode::is_ssz_fixed_len(), $m::encode::ssz_fixed_len()) }
                fn d_fixed() -> (bool, usize) { ($m::decode::is_ssz_fixed_len(), $m::decode::ssz_fixed_len()) }
                fn size(o: &Option<$t>) -> usize { $m::encode::ssz_bytes_len(o) }
                fn append(o: &Option<$t>, buf: &mut Vec<u8>) { $m::encode::ssz_append(o, buf) }
                fn bytes(o: &Option<$t>) -> Vec<u8> { $m::encode::as_ssz_bytes(o) }
                fn from(b: &[u8]) -> Result<Option<$t>, DecodeError> { $m::decode::from_ssz_bytes(b) }
            }
        )*
        const NL: usize = [$(stringify!($n)),*].len();
        #[allow(unused_assignments)]
        fn leg(i: usize) {
            let mut k = 0usize;
            $( if i == k { return alone::<$n>($len); } k += 1; )*
        }
    };
}
legs! {
    l_u8 LU8 u8, 7;
    l_u16 LU16 u16, 8;
    l_u64 LU64 u64, 14;
    l_bool LBool bool, 7;
    l_arr LArr [u8; 4], 10;
    l_arr0 LArr0 [u8; 0], 6;
    l_u256 LU256 U256, 37;
    l_tup LTup (u8, u16), 9;
    l_fix LFix Fix, 15;
    l_tag LTag Tag3, 7;
    l_empty LEmpty Empty, 6;
    l_bv LBv BitVector<U5>, 7;
    l_nz LNz std::num::NonZeroUsize, 13;
    l_arc LArc Arc<u16>, 8;
    l_vu8 LVu8 Vec<u8>, 8;
    l_vu16 LVu16 Vec<u16>, 9;
    l_sv LSv SmallVec<[u16; 2]>, 9;
    l_vv LVv Vec<Vec<u8>>, 13;
    l_bytes LBytes Bytes, 8;
    l_opt LOpt Option<u8>, 8;
    l_oo LOo Option<Option<u8>>, 8;
    l_var LVar VarMid, 14;
    l_two LTwo VarTwo, 14;
    l_uni LUni Uni, 13;
    l_bl LBl BitList<U9>, 7;
    l_bd LBd BitVectorDynamic, 7;
    l_trans LTrans Trans, 8;
    l_vt LVt Vec<(u8, Vec<u8>)>, 16;
    l_arcv LArcv Arc<Vec<u8>>, 7;
    l_cont LCont Three, 22;
}

fn alone<L: Leg>(max: usize) {
    let s = S::Legacy(Box::new(L::T::schema()));
    match sx::split(3) {
        0 => {
            let o: Option<L::T> = M::sym(if sx::THOROUGH { 3 } else { 2 });
            let w = model::encode(&s, &o.val());
            sx::cover(1);
            sx::check(L::size(&o) == w.len(), "the legacy codec predicts another size");
            let e = L::bytes(&o);
            sx::same(&e, &w, "the legacy encoding is not selector ++ value");
            let mut p = vec![0xee; 2];
            L::append(&o, &mut p);
            sx::check(p[0] == 0xee && p[1] == 0xee, "the legacy ssz_append changes earlier bytes");
            sx::same(&p[2..], &w, "the legacy ssz_append appends something else");
            sx::check(L::e_fixed() == (false, 4) && L::d_fixed() == (false, 4), "the legacy codec's metadata");
            match L::from(&w) {
                Ok(x) => {
                    sx::check(x.is_some() == o.is_some(), "the legacy codec does not round-trip");
                    sx::check(model::eq(&x.val(), &o.val()), "the legacy codec round-trips to another value");
                }
                Err(_) => sx::check(false, "the legacy codec rejects its own encoding"),
            }
            sx::out(&w);
        }
        1 => {
            let n = sx::split(max + if sx::THOROUGH { 4 } else { 1 });
            strict::<L>(&s, &sx::bytes(n));
        }
        _ => {
            sx::mode(2, sx::SEED);
            let o = Some(L::T::sym(4));
            let e = model::encode(&s, &o.val());
            sx::mode(0, 0);
            strict::<L>(&s, &disturb(e, 24));
        }
    }
}
fn strict<L: Leg>(s: &S, b: &[u8]) {
    let want = model::decode(s, b);
    // short inputs and other selectors are to be rejected; a panic on an invalid body is C05's business
    let known = b.len() >= 4 && (b[0] <= 1) & (b[1] == 0) & (b[2] == 0) & (b[3] == 0);
    sx::allow_panic(want.is_none() && known);
    let got = L::from(b);
    sx::allow_panic(false);
    match (want, got) {
        (Some(w), Ok(x)) => {
            sx::cover(2);
            if x.is_none() {
                sx::cover(3);
            }
            sx::check(match (&w, &x) {
                (model::Val::Un(i, _), x) => *i == x.is_some() as usize,
                _ => false,
            }, "a legacy selector decodes to the other variant");
            sx::check(model::eq(&w, &x.val()), "the legacy codec decodes to another value");
            let e = L::bytes(&x);
            sx::same(&e, b, "a legacy encoding is accepted that is not the one of the decoded value");
            sx::out(b);
        }
        (None, Err(_)) => sx::cover(4),
        (Some(_), Err(_)) => sx::check(false, "a valid legacy encoding is rejected"),
        (None, Ok(_)) => sx::check(false, "an invalid legacy encoding is accepted"),
    }
}

// ------------------------------------------------------------------ as field codecs
macro_rules! cont {
    ($name:ident { $($(#[$($a:tt)*])? $f:ident : $t:ty => $s:expr),* $(,)? }) => {
        #[derive(Encode, Decode, PartialEq, Clone, Debug)]
        pub struct $name { $($(#[$($a)*])? pub $f: $t),* }
        impl M for $name {
            fn schema() -> S { S::Cont(vec![$($s),*]) }
            fn val(&self) -> model::Val { model::Val::L(vec![$(self.$f.val()),*]) }
            fn sym(d: usize) -> Self { $name { $($f: M::sym(d)),* } }
        }
    };
}
fn leg_of<T: M>() -> S {
    S::Legacy(Box::new(T::schema()))
}
cont!(OneFix { #[ssz(with = "l_u16")] a: Option<u16> => leg_of::<u16>() });
cont!(OneVar { #[ssz(with = "l_vu8")] a: Option<Vec<u8>> => leg_of::<Vec<u8>>() });
cont!(Three { a: u8 => S::U(1), #[ssz(with = "l_u16")] b: Option<u16> => leg_of::<u16>(), #[ssz(with = "l_vu16")] c: Option<Vec<u16>> => leg_of::<Vec<u16>>() });
cont!(Mixed {
    #[ssz(with = "l_vu8")] a: Option<Vec<u8>> => leg_of::<Vec<u8>>(),
    b: Option<u8> => <Option<u8>>::schema(),
    c: u16 => S::U(2),
    #[ssz(with = "l_bool")] d: Option<bool> => leg_of::<bool>(),
});
cont!(VarBetween {
    a: Vec<u8> => <Vec<u8>>::schema(),
    #[ssz(with = "l_empty")] b: Option<Empty> => leg_of::<Empty>(),
    c: Vec<u8> => <Vec<u8>>::schema(),
});
cont!(NestLeg { #[ssz(with = "l_var")] a: Option<VarMid> => leg_of::<VarMid>(), b: OneFix => OneFix::schema() });
cont!(TwoTimes { #[ssz(with = "l_u16")] a: Option<u16> => leg_of::<u16>(), #[ssz(with = "l_u16")] b: Option<u16> => leg_of::<u16>() });

fn field<T: M>(max: usize) {
    let s = T::schema();
    match sx::split(3) {
        0 => {
            let v = T::sym(2);
            let w = model::encode(&s, &v.val());
            sx::cover(5);
            sx::check(v.ssz_bytes_len() == w.len(), "a container with legacy fields predicts another size");
            let e = v.as_ssz_bytes();
            sx::same(&e, &w, "a container with legacy fields does not encode to its schema's encoding");
            sx::check(!<T as Encode>::is_ssz_fixed_len() && !<T as Decode>::is_ssz_fixed_len(), "a container with legacy fields claims to be fixed-size");
            match T::from_ssz_bytes(&w) {
                Ok(x) => sx::check(model::eq(&x.val(), &v.val()), "a container with legacy fields round-trips to another value"),
                Err(_) => sx::check(false, "a container with legacy fields rejects its own encoding"),
            }
        }
        k => {
            let b = if k == 1 { sx::bytes(sx::split(max + 1)) } else { near::<T>(sx::SEED, 4, 40) };
            let want = model::decode(&s, &b);
            sx::allow_panic(want.is_none());
            let got = T::from_ssz_bytes(&b);
            sx::allow_panic(false);
            match (want, got) {
                (Some(w), Ok(x)) => {
                    sx::cover(6);
                    sx::check(model::eq(&w, &x.val()), "a container with legacy fields decodes to another value");
                    let e = x.as_ssz_bytes();
                    sx::same(&e, &b, "a container with legacy fields accepts what is not its encoding");
                }
                (None, Err(_)) => sx::cover(7),
                (Some(_), Err(_)) => sx::check(false, "a container with legacy fields rejects a valid encoding"),
                (None, Ok(_)) => sx::check(false, "a container with legacy fields accepts an invalid encoding"),
            }
        }
    }
}
fn fields(i: usize) {
    match i {
        0 => field::<OneFix>(12),
        1 => field::<OneVar>(13),
        2 => field::<Three>(20),
        3 => field::<Mixed>(24),
        4 => field::<VarBetween>(18),
        5 => field::<NestLeg>(20),
        6 => field::<TwoTimes>(19),
        _ => field::<Vec<OneFix>>(20),
    }
}
/// the selector helpers
fn helpers() {
    let n = sx::choose(8);
    let b = sx::bytes(n);
    match ssz::legacy::read_four_byte_union_selector(&b) {
        Ok(x) => {
            sx::check(n >= 4, "a selector is read from fewer than four bytes");
            if n >= 4 {
                sx::check(x == u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize, "a selector is misread");
            }
        }
        Err(_) => sx::check(n < 4, "a selector of four bytes is not read"),
    }
    let k = sx::choose(2);
    sx::check(ssz::legacy::encode_four_byte_union_selector(k) == [k as u8, 0, 0, 0], "a selector is misencoded");
    sx::cover(8);
}
pub fn run() {
    match sx::split(3) {
        0 => leg(sx::split(NL)),
        1 => fields(sx::split(8)),
        _ => helpers(),
    }
}
