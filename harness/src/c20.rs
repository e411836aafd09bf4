//! C20: the Arbitrary generators yield valid bitfields, never panic, and can succeed for every capacity from 1.
use crate::bits::*;
use crate::sx;
use arbitrary::{Arbitrary, Unstructured};
use ssz::{BitList, BitVector};
use typenum::*;

fn valid<B: BF>(b: &B) {
    let n = b.len();
    match B::KIND {
        Kind::List => sx::check(n <= B::cap(), "a generated bitlist holds more than N bits"),
        _ => sx::check(n == B::cap(), "a generated bitvector does not hold exactly N bits"),
    }
    let s = b.slice();
    let want = if n == 0 { 1 } else { n.div_ceil(8) };
    sx::check(s.len() == want, "the byte view of a generated bitfield does not fit its length");
    if s.len() != want {
        return;
    }
    let m: Vec<bool> = (0..n).map(|i| s[i / 8] >> (i % 8) & 1 == 1).collect();
    holds(b, &m);
    let e = b.as_ssz_bytes();
    sx::same(&e, &wire_of::<B>(&m), "the encoding of a generated bitfield is not the reference encoding of its bits");
    match B::from_ssz_bytes(&e) {
        Ok(d) => {
            sx::check(d == *b, "a generated bitfield changes in an SSZ round trip");
            holds(&d, &m);
        }
        Err(_) => sx::check(false, "the encoding of a generated bitfield does not decode"),
    }
}
fn go<B: BF + for<'a> Arbitrary<'a>>(id: u32) {
    let c = B::cap();
    let body = std::cmp::max(1, c.div_ceil(8));
    // lengths of the unstructured data: none, too little, just enough, more
    let mut ls: Vec<usize> = match B::KIND {
        Kind::List => (0..=8 + body.min(4) + 1).chain([8 + body, 8 + body + 2, 16 + 2 * body + 24]).collect(),
        _ => (0..=body.min(5)).chain([body - 1, body, body + 1, body + 3, 16 + 2 * body + 24]).collect(),
    };
    ls.sort();
    ls.dedup();
    let mut data = sx::bytes(ls[sx::split(ls.len())]);
    if B::KIND == Kind::List && body > 5 {
        // arbitrary up to 3 bytes, or everything that is there
        let r = u64::from_le_bytes(std::array::from_fn(|i| if i < data.len() { data[i] } else { 0 })) as usize;
        sx::assume((r <= 3) | (r >= body));
    }
    if data.len() > 24 {
        let k = data.len();
        for i in 10..k - 9 {
            data[i] = 0xa5;
        }
    }
    let mut u = Unstructured::new(&data);
    let r = if sx::choose(2) == 0 { B::arbitrary(&mut u) } else { B::arbitrary_take_rest(u) };
    match r {
        Ok(b) => {
            sx::cover(1);
            sx::cover(id);
            valid(&b);
        }
        Err(_) => sx::cover(2),
    }
    let _ = <B as Arbitrary>::size_hint(0);
}
macro_rules! types {
    ($($k:ident $base:literal : $($n:ty),*;)*) => {
        const NT: usize = [$( $(stringify!($k $n)),* ),*].len();
        #[allow(unused_assignments)]
        fn ty(i: usize) {
            let mut k = 0usize;
            $( let mut id = $base; $( if i == k { return go::<$k<$n>>(id); } k += 1; id += 1; )* )*
        }
    };
}
type U1025 = <U1024 as std::ops::Add<U1>>::Output;
types! {
    BitVector 200: U1, U2, U3, U4, U5, U6, U7, U8, U9, U10, U11, U12, U15, U16, U17, U24, U25, U31, U32, U33, U63, U64, U65, U128, U256, U512, U1024, U1025, U2048, U4096;
    BitList 100: U1, U2, U3, U4, U5, U6, U7, U8, U9, U10, U15, U16, U17, U24, U31, U32, U33, U63, U64, U65, U128, U256, U512, U1024, U1025, U2048, U4096;
    BitList 3: U0;
    BitVector 4: U0;
}
pub fn run() {
    ty(sx::split(NT))
}
