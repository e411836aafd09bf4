//! C09: offset tables partition the input exactly.
use crate::sx;
use crate::types::*;
use smallvec::SmallVec;
use ssz::{Decode, DecodeError, SszDecoderBuilder};
use std::collections::BTreeSet;

fn le(b: &[u8], at: usize) -> usize {
    b[at] as usize | (b[at + 1] as usize) << 8 | (b[at + 2] as usize) << 16 | (b[at + 3] as usize) << 24
}
/// reference: Some([start, end) of every item) iff fixed parts, offset words and variable parts tile `b`
fn tile(b: &[u8], items: &[Option<usize>]) -> Option<Vec<(usize, usize)>> {
    let n = b.len();
    let mut at = 0usize;
    let mut var = 0;
    let mut out = vec![];
    for it in items {
        match it {
            Some(k) => {
                if *k > n - at {
                    return None;
                }
                out.push((at, at + *k));
                at += *k;
            }
            None => {
                if 4 > n - at {
                    return None;
                }
                out.push((at, at));
                at += 4;
                var += 1;
            }
        }
    }
    if var == 0 {
        return if at == n { Some(out) } else { None };
    }
    let mut prev = at;
    let mut last: Option<usize> = None;
    for i in 0..items.len() {
        if items[i].is_some() {
            continue;
        }
        let o = le(b, out[i].0);
        match last {
            None => {
                if o != at {
                    return None;
                }
            }
            Some(j) => {
                if o < prev {
                    return None;
                }
                out[j].1 = o;
            }
        }
        if o > n {
            return None;
        }
        out[i].0 = o;
        prev = o;
        last = Some(i);
    }
    out[last.unwrap()].1 = n;
    Some(out)
}
/// what the library does: None = an error from some registration or from build
fn observed(b: &[u8], items: &[Option<usize>], typed: bool) -> Option<Vec<(usize, usize)>> {
    let mut bl = SszDecoderBuilder::new(b);
    for it in items {
        let r = match it {
            None if typed => bl.register_anonymous_variable_length_item(),
            // (the length argument of a variable-size registration carries no meaning)
            None => bl.register_type_parameterized(false, 4),
            Some(k) => bl.register_type_parameterized(true, *k),
        };
        if r.is_err() {
            return None;
        }
    }
    let mut d = bl.build().ok()?;
    let mut out = vec![];
    for _ in items {
        let (p, l) = d.decode_next_with(|s| Ok::<_, DecodeError>((s.as_ptr() as usize, s.len()))).unwrap();
        out.push((p.wrapping_sub(b.as_ptr() as usize), l));
    }
    Some(out)
}
fn compare(want: Option<Vec<(usize, usize)>>, got: Option<Vec<(usize, usize)>>) {
    match (want, got) {
        (None, None) => sx::cover(0),
        (Some(w), Some(g)) => {
            sx::cover(1);
            sx::check(w.len() == g.len(), "number of items");
            for i in 0..w.len() {
                let l = w[i].1 - w[i].0;
                sx::check(g[i].1 == l, "an item is handed a slice of the wrong length");
                sx::check((l == 0) | (g[i].0 == w[i].0), "an item is handed bytes of another position");
                sx::out(&(g[i].1 as u32).to_le_bytes());
            }
        }
        (Some(_), None) => sx::check(false, "a layout that tiles the input is rejected"),
        (None, Some(_)) => sx::check(false, "a layout that does not tile the input is accepted"),
    }
}
/// every fixed/variable sequence of up to K items, symbolic fixed lengths, all bytes
fn sequences() {
    let k = sx::split(K + 1);
    let mask = sx::split(1 << k);
    let nv = (0..k).filter(|i| mask >> i & 1 == 1).count();
    let ns: Vec<usize> = (0..=if nv > 2 { 4 * nv + 6 } else { N }).collect();
    let n = ns[sx::split(ns.len())];
    let b = sx::bytes(n);
    let mut items = vec![];
    for i in 0..k {
        if mask >> i & 1 == 1 {
            items.push(None)
        } else {
            let l = sx::usize();
            sx::assume(l > 0);
            items.push(Some(l))
        }
    }
    compare(tile(&b, &items), observed(&b, &items, false))
}
/// long sequences (the builder's inline capacity is 8 items), small concrete fixed lengths, all bytes
fn long() {
    let k = 7 + sx::split(if sx::THOROUGH { 12 } else { 7 });
    let pat = sx::split(if sx::THOROUGH { 24 } else { 8 });
    let mut items = vec![];
    let mut st = (sx::SEED as usize).wrapping_mul(97) + pat * 31 + 5;
    let mut head = 0;
    for i in 0..k {
        st = st.wrapping_mul(1103515245).wrapping_add(12345) & 0x7fffffff;
        let r = st >> 16;
        let var = match pat {
            0 => true,
            1 => false,
            2 => i == 0,
            3 => i + 1 == k,
            4 => i == 7 || i == 8,
            5 => i % 2 == 0,
            _ => r % 5 < 2,
        };
        if var {
            items.push(None);
            head += 4;
        } else {
            let l = 1 + r % 3;
            items.push(Some(l));
            head += l;
        }
    }
    let n = match sx::split(4) {
        0 => head,
        1 => head + 1,
        2 => head + 5,
        _ => head - 1,
    };
    let b = sx::bytes(n);
    compare(tile(&b, &items), observed(&b, &items, true))
}

/// a variable-size item that records which bytes it was handed
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
struct Probe(usize, usize);
impl Decode for Probe {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        Ok(Probe(b.as_ptr() as usize, b.len()))
    }
}
fn tile_list(b: &[u8]) -> Option<Vec<(usize, usize)>> {
    let n = b.len();
    if n == 0 {
        return Some(vec![]);
    }
    if n < 4 {
        return None;
    }
    let first = le(b, 0);
    if first < 4 || first % 4 != 0 || first > n {
        return None;
    }
    let mut out: Vec<(usize, usize)> = vec![];
    let mut prev = first;
    for i in 0..first / 4 {
        let o = le(b, 4 * i);
        if o < prev || o > n {
            return None;
        }
        if i > 0 {
            out[i - 1].1 = o;
        }
        out.push((o, n));
        prev = o;
    }
    Some(out)
}
fn lists() {
    let how = sx::split(5);
    let n = sx::split(match (how == 4, sx::THOROUGH) {
        (true, false) => 15,
        (true, true) => 18,
        (_, false) => 22,
        _ => 30,
    });
    let b = sx::bytes(n);
    let base = b.as_ptr() as usize;
    let conv = |v: &mut dyn Iterator<Item = &Probe>| v.map(|p| (p.0.wrapping_sub(base), p.1)).collect::<Vec<_>>();
    let got = match how {
        0 => Vec::<Probe>::from_ssz_bytes(&b).ok().map(|v| conv(&mut v.iter())),
        1 => SmallVec::<[Probe; 2]>::from_ssz_bytes(&b).ok().map(|v| conv(&mut v.iter())),
        2 => ssz::decode_list_of_variable_length_items::<Probe, Vec<Probe>>(&b, None).ok().map(|v| conv(&mut v.iter())),
        3 => ssz::decode_list_of_variable_length_items::<Probe, SmallVec<[Probe; 8]>>(&b, Some(n)).ok().map(|v| conv(&mut v.iter())),
        _ => {
            // sets: which items there are (order and duplicates are C19's business)
            let want = tile_list(&b);
            let got = BTreeSet::<Vec<u8>>::from_ssz_bytes(&b).ok();
            sx::check(want.is_some() == got.is_some(), "set: accepted layouts");
            if let (Some(w), Some(g)) = (want, got) {
                sx::check(g.len() <= w.len(), "set: more items than listed");
                for (s, e) in w {
                    sx::check(g.contains(&b[s..e]), "set: a listed item is missing");
                }
            }
            return;
        }
    };
    sx::cover(2);
    compare(tile_list(&b), got)
}
/// typed registration: the metadata of the type decides the layout
fn typed() {
    type T0 = (u8, Vec<u8>, u16);
    let n = sx::split(19);
    let b = sx::bytes(n);
    macro_rules! go {
        ($($t:ty),*) => {{
            let items: Vec<Option<usize>> = vec![$(crate::model::fixed(&<$t as M>::schema())),*];
            let mut bl = SszDecoderBuilder::new(&b);
            let mut ok = true;
            $( ok = ok && bl.register_type::<$t>().is_ok(); )*
            let got = if !ok { None } else {
                bl.build().ok().map(|mut d| {
                    let mut o = vec![];
                    $( let _ = stringify!($t); let (p, l) = d.decode_next_with(|s| Ok::<_, DecodeError>((s.as_ptr() as usize, s.len()))).unwrap();
                       o.push((p.wrapping_sub(b.as_ptr() as usize), l)); )*
                    o
                })
            };
            compare(tile(&b, &items), got)
        }};
    }
    match sx::split(8) {
        0 => go!(u8, Vec<u8>, u16),
        1 => go!(Vec<u8>, Vec<u16>),
        2 => go!(Fix, Tag3),
        3 => go!(VarMid, bool, Option<u8>),
        4 => go!(typed_nested::BV, typed_nested::BL, u8),
        5 => go!([u8; 3], u64, u16),
        6 => go!(Uni, UniFix),
        _ => go!(T0, TransFix, Trans),
    }
}
mod typed_nested {
    pub type BV = ssz::BitVector<typenum::U9>;
    pub type BL = ssz::BitList<typenum::U9>;
}
fn words() {
    match sx::split(3) {
        0 => {
            // the offset word of every value below 2^32
            let x = sx::u32();
            let e = ssz::encode_length(x as usize);
            sx::check(e.len() == 4, "an offset word is 4 bytes");
            sx::check(crate::model::beq(&e[..], &[x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8]), "offset words are little-endian");
            match ssz::read_offset(&e) {
                Ok(y) => sx::check(y == x as usize, "read_offset(encode_length(x)) != x"),
                Err(_) => sx::check(false, "an offset word does not decode"),
            }
            sx::out(&e);
        }
        1 => {
            let b: [u8; 4] = sx::arr();
            match ssz::read_offset(&b) {
                Ok(y) => {
                    sx::check(y == le(&b, 0), "offset words are little-endian");
                    sx::check(crate::model::beq(&ssz::encode_length(y), &b), "encode_length(read_offset(b)) != b");
                }
                Err(_) => sx::check(false, "a 4-byte offset word does not decode"),
            }
        }
        _ => {
            // the first four bytes count; fewer are an error
            let n = sx::split(9);
            let b = sx::bytes(n);
            match ssz::read_offset(&b) {
                Ok(y) => {
                    sx::check(n >= 4, "an offset is read from fewer than 4 bytes");
                    if n >= 4 {
                        sx::check(y == le(&b, 0), "offset words are little-endian");
                    }
                }
                Err(_) => sx::check(n < 4, "an offset word does not decode"),
            }
        }
    }
    sx::cover(3);
}
const K: usize = if sx::THOROUGH { 5 } else { 4 };
const N: usize = if sx::THOROUGH { 16 } else { 13 };
pub fn run() {
    match sx::split(5) {
        0 => sequences(),
        1 => long(),
        2 => lists(),
        3 => typed(),
        _ => words(),
    }
}
