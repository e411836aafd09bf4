//! C18: the serde form is "0x" and the lower-case hex of the SSZ encoding.
use crate::bits::*;
use crate::model;
use crate::serdes::{de, ser};
use crate::sx;
use serde::{Deserialize, Serialize};
use ssz::{BitList, BitVector, BitVectorDynamic};
use typenum::*;

fn digit(x: u8) -> u8 {
    // branch-free, so that one path covers every value
    let l = (x > 9) as u8;
    b'0' + x + l * (b'a' - b'0' - 10)
}
/// value of a hex digit, branch-free; 0xff if it is none
fn value(c: u8) -> (bool, u8) {
    let d = (c >= b'0') & (c <= b'9');
    let l = (c >= b'a') & (c <= b'f');
    let u = (c >= b'A') & (c <= b'F');
    let v = (c & 15) + ((l | u) as u8) * 9;
    (d | l | u, v)
}
/// reference: 0x-prefixed even-length hex
fn parse(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() < 2 || s.len() % 2 != 0 {
        return None;
    }
    let mut ok = (s[0] == b'0') & (s[1] == b'x');
    let mut out = vec![];
    let mut i = 2;
    while i < s.len() {
        let (a, x) = value(s[i]);
        let (b, y) = value(s[i + 1]);
        ok &= a & b;
        out.push(x << 4 | y);
        i += 2;
    }
    if ok {
        Some(out)
    } else {
        None
    }
}
fn write<B: BF + Serialize + for<'a> Deserialize<'a>>() {
    let mut ls = B::lens();
    if B::KIND == Kind::List && B::cap() > 40 {
        ls.retain(|x| *x < 26 || *x + 2 > B::cap());
    }
    let n = ls[sx::choose(ls.len())];
    let (b, m) = any::<B>(n, sx::choose(2));
    let w = wire_of::<B>(&m);
    let mut want = vec![b'0', b'x'];
    for x in &w {
        want.push(digit(x >> 4));
        want.push(digit(x & 15));
    }
    match ser(&b) {
        None => sx::check(false, "serialization does not yield a string"),
        Some(s) => {
            sx::cover(1);
            sx::out(s.as_bytes());
            sx::same(s.as_bytes(), &want, "serialized form is not 0x and the lower-case hex of the SSZ encoding");
        }
    }
    holds(&b, &m);
    // round trip
    if n <= 17 || sx::THOROUGH {
        if let Some(s) = ser(&b) {
            match de::<B>(&s, sx::choose(3)) {
                None => sx::check(false, "the serialized form does not deserialize"),
                Some(d) => {
                    sx::cover(2);
                    sx::check(d == b, "serde round trip changes the value");
                    holds(&d, &m);
                }
            }
        }
    }
}
fn read<B: BF + Serialize + for<'a> Deserialize<'a>>(max: usize) {
    // all ASCII strings of this length; with a proper prefix for the longer ones
    let n = sx::choose(max + 1);
    let free = n <= if sx::THOROUGH { 6 } else { 5 };
    let s = sx::bytes(n);
    for i in 0..n {
        sx::assume(s[i] < 0x80);
    }
    if !free {
        sx::assume(s[0] == b'0');
        sx::assume(s[1] == b'x');
    }
    judge::<B>(s);
}
/// the proper string of an arbitrary byte string, or with one arbitrary character changed, left out, doubled or upper-cased
fn near<B: BF + Serialize + for<'a> Deserialize<'a>>() {
    let n = [1, 2, 3, 4][sx::choose(if sx::THOROUGH { 4 } else { 3 })];
    let w = sx::bytes(n);
    let mut s = vec![b'0', b'x'];
    let up = sx::choose(2) as u8;
    for x in &w {
        for q in [x >> 4, x & 15] {
            s.push(b'0' + q + ((q > 9) as u8) * (if up == 1 { b'A' } else { b'a' } - b'0' - 10));
        }
    }
    match sx::choose(8) {
        0 => {}
        1 => {
            s[1] = b'X';
        }
        2 => {
            s.remove(0);
        }
        3 => {
            s.drain(0..2);
        }
        4 => {
            let c = sx::u8();
            sx::assume(c < 0x80);
            let k = s.len() - 1;
            s[k] = c;
        }
        5 => {
            let c = sx::u8();
            sx::assume(c < 0x80);
            s.push(c);
        }
        6 => {
            let c = sx::u8();
            sx::assume(c < 0x80);
            s.insert(0, c);
        }
        _ => {
            s.splice(0..0, [b'0', b'x']);
        }
    }
    judge::<B>(s);
}
fn judge<B: BF + Serialize + for<'a> Deserialize<'a>>(s: Vec<u8>) {
    // ASCII only: any other string is covered by `other`
    let t = unsafe { std::str::from_utf8_unchecked(&s) };
    let got = de::<B>(t, 0);
    let want = parse(&s).and_then(|b| model::decode(&B::schema(), &b));
    match (got, want) {
        (Some(b), Some(v)) => {
            sx::cover(3);
            match v {
                model::Val::Bits(m) => holds(&b, &m),
                _ => sx::check(false, "model"),
            }
        }
        (None, None) => sx::cover(4),
        (Some(_), None) => sx::check(false, "accepts a string that is not 0x-prefixed even-length hex of a valid encoding"),
        (None, Some(_)) => sx::check(false, "rejects 0x-prefixed even-length hex of a valid encoding"),
    }
}
/// strings with characters outside ASCII, and degenerate ones
fn other<B: BF + Serialize + for<'a> Deserialize<'a>>() {
    let v = [
        "0x0é", "0xé", "é", "0xéé", "0x\u{ff11}1", "０x01", "0x01\u{0}", " 0x01", "0x01 ", "0x 01", "0x+1", "0x-1", "0x0x01", "x01", "0", "", "0x0_1", "\u{feff}0x01", "0x01é",
        "0xff\u{661}1", "\"0x01\"", "0X01", "0x1", "0x0g", "0b01", "01", "0x01\n",
    ];
    let s = v[sx::choose(v.len())];
    sx::cover(5);
    sx::check(de::<B>(s, sx::choose(3)).is_none(), "accepts a string that is not 0x-prefixed hex");
}
fn go<B: BF + Serialize + for<'a> Deserialize<'a>>(max: usize) {
    match sx::split(4) {
        0 => write::<B>(),
        1 => read::<B>(if sx::THOROUGH { max + 2 } else { max }),
        2 => near::<B>(),
        _ => other::<B>(),
    }
}
macro_rules! types {
    ($($t:ty, $s:expr;)*) => {
        const NT: usize = [$(stringify!($t)),*].len();
        #[allow(unused_assignments)]
        fn ty(i: usize) {
            let mut k = 0usize;
            $( if i == k { return go::<$t>($s); } k += 1; )*
        }
    };
}
types! {
    BitList<U0>, 6;
    BitList<U1>, 6;
    BitList<U7>, 6;
    BitList<U8>, 6;
    BitList<U9>, 8;
    BitList<U16>, 8;
    BitList<U64>, 6;
    BitVector<U0>, 6;
    BitVector<U1>, 6;
    BitVector<U4>, 6;
    BitVector<U8>, 6;
    BitVector<U9>, 8;
    BitVector<U16>, 8;
    BitVector<U20>, 8;
    BitVector<U64>, 6;
    BitVectorDynamic, 8;
}
pub fn run() {
    ty(sx::split(NT))
}
