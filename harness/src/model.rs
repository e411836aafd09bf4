//! Independent reference model of SSZ: schemas, values, serializer, strict deserializer.
//! Written from the SSZ specification; shares no code with the crate under test.

#[derive(Clone, Debug)]
pub enum S {
    /// unsigned integer / opaque byte vector of n bytes (wire form: the bytes, little-endian for integers)
    U(usize),
    Bool,
    /// 8-byte little-endian integer, zero is not a value (NonZeroUsize)
    NonZero,
    /// List[byte]
    Bytes,
    List(Box<S>),
    Cont(Vec<S>),
    /// None = the null variant (empty body)
    Union(Vec<Option<S>>),
    /// uint8 restricted to 0..n
    Tag(usize),
    BitVec(usize),
    BitList(usize),
    /// the library's dynamic bitvector: any non-empty byte string, 8 bits per byte
    BitDyn,
    /// legacy four byte selector option
    Legacy(Box<S>),
    /// transparent enum: encodes as the inner value, decodes as the first variant that accepts
    First(Vec<S>),
    /// ordered map / set: list of entries, ascending on the wire when encoding, any order when decoding
    Map(Box<S>, Box<S>),
    Set(Box<S>),
}

#[derive(Clone, Debug)]
pub enum Val {
    B(Vec<u8>),
    L(Vec<Val>),
    Bits(Vec<bool>),
    Un(usize, Option<Box<Val>>),
}

impl Val {
    pub fn u(b: &[u8]) -> Val {
        Val::B(b.to_vec())
    }
}

/// structural equality without short-circuiting (so that it stays one symbolic expression)
pub fn eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::B(x), Val::B(y)) => x.len() == y.len() && beq(x, y),
        (Val::Bits(x), Val::Bits(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let mut r = true;
            for i in 0..x.len() {
                r &= x[i] == y[i];
            }
            r
        }
        (Val::L(x), Val::L(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let mut r = true;
            for i in 0..x.len() {
                r &= eq(&x[i], &y[i]);
            }
            r
        }
        (Val::Un(i, x), Val::Un(j, y)) => {
            if i != j {
                return false;
            }
            match (x, y) {
                (None, None) => true,
                (Some(x), Some(y)) => eq(x, y),
                _ => false,
            }
        }
        _ => false,
    }
}
pub fn beq(x: &[u8], y: &[u8]) -> bool {
    if x.len() != y.len() {
        return false;
    }
    let mut r = true;
    for i in 0..x.len() {
        r &= x[i] == y[i];
    }
    r
}

fn le4(n: usize) -> [u8; 4] {
    [n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8]
}

/// Some(n): fixed-size of n bytes
pub fn fixed(s: &S) -> Option<usize> {
    match s {
        S::U(n) => Some(*n),
        S::Bool | S::Tag(_) => Some(1),
        S::NonZero => Some(8),
        S::BitVec(n) => Some(if *n == 0 { 1 } else { (*n + 7) / 8 }),
        S::Cont(fs) => {
            let mut t = 0;
            for f in fs {
                t += fixed(f)?;
            }
            Some(t)
        }
        _ => None,
    }
}

fn bits_to_bytes(bits: &[bool], n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    for (i, b) in bits.iter().enumerate() {
        v[i / 8] |= (*b as u8) << (i % 8);
    }
    v
}

fn enc_seq(items: &[(Vec<u8>, bool)]) -> Vec<u8> {
    // (bytes, is_fixed) of each part
    let mut head = 0;
    for (b, f) in items {
        head += if *f { b.len() } else { 4 };
    }
    let mut out = vec![];
    let mut at = head;
    for (b, f) in items {
        if *f {
            out.extend_from_slice(b);
        } else {
            out.extend_from_slice(&le4(at));
            at += b.len();
        }
    }
    for (b, f) in items {
        if !*f {
            out.extend_from_slice(b);
        }
    }
    out
}

pub fn encode(s: &S, v: &Val) -> Vec<u8> {
    match (s, v) {
        (S::U(_), Val::B(b)) | (S::Bool, Val::B(b)) | (S::NonZero, Val::B(b)) | (S::Bytes, Val::B(b)) | (S::Tag(_), Val::B(b)) => b.clone(),
        (S::List(e), Val::L(xs)) | (S::Set(e), Val::L(xs)) => {
            let f = fixed(e).is_some();
            let parts: Vec<(Vec<u8>, bool)> = xs.iter().map(|x| (encode(e, x), f)).collect();
            enc_seq(&parts)
        }
        (S::Map(k, w), Val::L(xs)) => {
            let e = S::Cont(vec![(**k).clone(), (**w).clone()]);
            let f = fixed(&e).is_some();
            let parts: Vec<(Vec<u8>, bool)> = xs.iter().map(|x| (encode(&e, x), f)).collect();
            enc_seq(&parts)
        }
        (S::Cont(fs), Val::L(xs)) => {
            let mut parts = vec![];
            for i in 0..fs.len() {
                parts.push((encode(&fs[i], &xs[i]), fixed(&fs[i]).is_some()));
            }
            enc_seq(&parts)
        }
        (S::Union(vs), Val::Un(i, x)) => {
            let mut out = vec![*i as u8];
            if let (Some(t), Some(x)) = (&vs[*i], x) {
                out.extend_from_slice(&encode(t, x));
            }
            out
        }
        (S::BitVec(n), Val::Bits(b)) => bits_to_bytes(b, if *n == 0 { 1 } else { (*n + 7) / 8 }),
        (S::BitList(_), Val::Bits(b)) => {
            let mut v = bits_to_bytes(b, b.len() / 8 + 1);
            v[b.len() / 8] |= 1 << (b.len() % 8);
            v
        }
        (S::BitDyn, Val::Bits(b)) => bits_to_bytes(b, b.len() / 8),
        (S::First(vs), Val::Un(i, Some(x))) => encode(&vs[*i], x),
        (S::Legacy(t), Val::Un(i, x)) => {
            let mut out = le4(*i).to_vec();
            if let Some(x) = x {
                out.extend_from_slice(&encode(t, x));
            }
            out
        }
        _ => panic!("reference: schema mismatch"),
    }
}

fn off(b: &[u8]) -> usize {
    b[0] as usize | (b[1] as usize) << 8 | (b[2] as usize) << 16 | (b[3] as usize) << 24
}

fn bits_of(b: &[u8], n: usize) -> Vec<bool> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push((b[i / 8] >> (i % 8)) & 1 == 1);
    }
    v
}

/// split a list body of elements with schema e
fn dec_list(e: &S, b: &[u8]) -> Option<Vec<Val>> {
    let mut out = vec![];
    if b.is_empty() {
        return Some(out);
    }
    match fixed(e) {
        Some(0) => None,
        Some(n) => {
            if b.len() % n != 0 {
                return None;
            }
            for i in 0..b.len() / n {
                out.push(decode(e, &b[i * n..(i + 1) * n])?);
            }
            Some(out)
        }
        None => {
            if b.len() < 4 {
                return None;
            }
            let first = off(b);
            if first > b.len() || first < 4 || first % 4 != 0 {
                return None;
            }
            let n = first / 4;
            let mut starts = Vec::with_capacity(n + 1);
            let mut prev = first;
            for i in 0..n {
                let o = off(&b[4 * i..4 * i + 4]);
                if o < prev || o > b.len() {
                    return None;
                }
                prev = o;
                starts.push(o);
            }
            starts.push(b.len());
            for i in 0..n {
                out.push(decode(e, &b[starts[i]..starts[i + 1]])?);
            }
            Some(out)
        }
    }
}

pub fn dec_cont(fs: &[S], b: &[u8]) -> Option<Vec<Val>> {
    let mut head = 0usize;
    let mut any_var = false;
    for f in fs {
        match fixed(f) {
            Some(n) => head += n,
            None => {
                head += 4;
                any_var = true;
            }
        }
    }
    if b.len() < head || (!any_var && b.len() != head) {
        return None;
    }
    // offsets
    let mut starts = vec![];
    let mut at = 0;
    let mut prev = head;
    for f in fs {
        match fixed(f) {
            Some(n) => at += n,
            None => {
                let o = off(&b[at..at + 4]);
                if starts.is_empty() && o != head {
                    return None;
                }
                if o < prev || o > b.len() {
                    return None;
                }
                prev = o;
                starts.push(o);
                at += 4;
            }
        }
    }
    starts.push(b.len());
    let mut out = vec![];
    let mut at = 0;
    let mut k = 0;
    for f in fs {
        match fixed(f) {
            Some(n) => {
                out.push(decode(f, &b[at..at + n])?);
                at += n;
            }
            None => {
                out.push(decode(f, &b[starts[k]..starts[k + 1]])?);
                k += 1;
                at += 4;
            }
        }
    }
    Some(out)
}

/// strict: Some(v) iff b is a valid serialization of v
pub fn decode(s: &S, b: &[u8]) -> Option<Val> {
    match s {
        S::First(vs) => {
            for (i, t) in vs.iter().enumerate() {
                if let Some(x) = decode(t, b) {
                    return Some(Val::Un(i, Some(Box::new(x))));
                }
            }
            None
        }
        S::U(n) => {
            if b.len() != *n {
                return None;
            }
            Some(Val::B(b.to_vec()))
        }
        S::Bool => {
            if b.len() != 1 || b[0] > 1 {
                return None;
            }
            Some(Val::B(b.to_vec()))
        }
        S::NonZero => {
            if b.len() != 8 {
                return None;
            }
            let mut any = 0u8;
            for x in b {
                any |= *x;
            }
            if any == 0 {
                return None;
            }
            Some(Val::B(b.to_vec()))
        }
        S::Tag(n) => {
            if b.len() != 1 || b[0] as usize >= *n {
                return None;
            }
            Some(Val::B(b.to_vec()))
        }
        S::Bytes => Some(Val::B(b.to_vec())),
        S::List(e) | S::Set(e) => Some(Val::L(dec_list(e, b)?)),
        S::Map(k, w) => {
            let e = S::Cont(vec![(**k).clone(), (**w).clone()]);
            Some(Val::L(dec_list(&e, b)?))
        }
        S::Cont(fs) => Some(Val::L(dec_cont(fs, b)?)),
        S::Union(vs) => {
            if b.is_empty() || b[0] > 127 || b[0] as usize >= vs.len() {
                return None;
            }
            for i in 0..vs.len() {
                if b[0] as usize == i {
                    return match &vs[i] {
                        None => {
                            if b.len() != 1 {
                                None
                            } else {
                                Some(Val::Un(i, None))
                            }
                        }
                        Some(t) => Some(Val::Un(i, Some(Box::new(decode(t, &b[1..])?)))),
                    };
                }
            }
            None
        }
        S::BitVec(n) => {
            let want = if *n == 0 { 1 } else { (*n + 7) / 8 };
            if b.len() != want {
                return None;
            }
            let used = *n - (want - 1) * 8; // bits used in the last byte
            if used < 8 && (b[want - 1] >> used) != 0 {
                return None;
            }
            Some(Val::Bits(bits_of(b, *n)))
        }
        S::BitList(n) => {
            if b.is_empty() {
                return None;
            }
            let last = b[b.len() - 1];
            if last == 0 {
                return None;
            }
            for p in (0..8).rev() {
                if last >> p == 1 {
                    let len = (b.len() - 1) * 8 + p;
                    if len > *n {
                        return None;
                    }
                    return Some(Val::Bits(bits_of(b, len)));
                }
            }
            None
        }
        S::BitDyn => {
            if b.is_empty() {
                return None;
            }
            Some(Val::Bits(bits_of(b, b.len() * 8)))
        }
        S::Legacy(t) => {
            if b.len() < 4 {
                return None;
            }
            match off(b) {
                0 if b.len() == 4 => Some(Val::Un(0, None)),
                1 => Some(Val::Un(1, Some(Box::new(decode(t, &b[4..])?)))),
                _ => None,
            }
        }
    }
}

pub fn out(v: &Val) {
    match v {
        Val::B(b) => crate::sx::out(b),
        Val::L(xs) => {
            crate::sx::out(&[0xA1, xs.len() as u8]);
            for x in xs {
                out(x)
            }
        }
        Val::Bits(b) => {
            let v: Vec<u8> = b.iter().map(|x| *x as u8).collect();
            crate::sx::out(&v)
        }
        Val::Un(i, x) => {
            crate::sx::out(&[0xA2, *i as u8]);
            if let Some(x) = x {
                out(x)
            }
        }
    }
}

/// the order of the Rust key type the schema stands for (integers numerically, sequences lexicographically)
pub fn less(s: &S, a: &Val, b: &Val) -> bool {
    match (s, a, b) {
        (S::U(_), Val::B(x), Val::B(y)) | (S::Bool, Val::B(x), Val::B(y)) => {
            for i in (0..x.len()).rev() {
                if x[i] != y[i] {
                    return x[i] < y[i];
                }
            }
            false
        }
        (S::List(e), Val::L(x), Val::L(y)) | (S::Set(e), Val::L(x), Val::L(y)) => {
            for i in 0..x.len() {
                if i >= y.len() {
                    return false;
                }
                if !eq(&x[i], &y[i]) {
                    return less(e, &x[i], &y[i]);
                }
            }
            x.len() < y.len()
        }
        (S::Cont(fs), Val::L(x), Val::L(y)) => {
            for i in 0..x.len() {
                if !eq(&x[i], &y[i]) {
                    return less(&fs[i], &x[i], &y[i]);
                }
            }
            false
        }
        (S::Union(vs), Val::Un(i, x), Val::Un(j, y)) => {
            if i != j {
                return i < j;
            }
            match (&vs[*i], x, y) {
                (Some(s), Some(x), Some(y)) => less(s, x, y),
                _ => false,
            }
        }
        _ => panic!("reference: no order"),
    }
}

/// entry lists (as decoded, in wire order) -> sorted collections, recursively
pub fn collect(s: &S, v: Val) -> Option<Val> {
    Some(match (s, v) {
        (S::Map(k, w), Val::L(xs)) => {
            let mut out: Vec<(Val, Val)> = vec![];
            for x in xs {
                if let Val::L(mut kv) = x {
                    let b = collect(w, kv.pop().unwrap())?;
                    let a = collect(k, kv.pop().unwrap())?;
                    let mut i = 0;
                    let mut dup = false;
                    while i < out.len() {
                        if eq(&out[i].0, &a) {
                            dup = true;
                            break;
                        }
                        if !less(k, &out[i].0, &a) {
                            break;
                        }
                        i += 1;
                    }
                    if dup {
                        out[i].1 = b;
                    } else {
                        out.insert(i, (a, b));
                    }
                }
            }
            Val::L(out.into_iter().map(|(a, b)| Val::L(vec![a, b])).collect())
        }
        (S::Set(k), Val::L(xs)) => {
            let mut out: Vec<Val> = vec![];
            for x in xs {
                let a = collect(k, x)?;
                let mut i = 0;
                let mut dup = false;
                while i < out.len() {
                    if eq(&out[i], &a) {
                        dup = true;
                        break;
                    }
                    if !less(k, &out[i], &a) {
                        break;
                    }
                    i += 1;
                }
                if !dup {
                    out.insert(i, a);
                }
            }
            Val::L(out)
        }
        (S::List(e), Val::L(xs)) => {
            let mut o = vec![];
            for x in xs {
                o.push(collect(e, x)?);
            }
            Val::L(o)
        }
        (S::Cont(fs), Val::L(xs)) => {
            let mut o = vec![];
            for (s, x) in fs.iter().zip(xs) {
                o.push(collect(s, x)?);
            }
            Val::L(o)
        }
        (_, v) => v,
    })
}
