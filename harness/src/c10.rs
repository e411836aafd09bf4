//! C10: encoding is append-only, context-free and identical across entry points.
use crate::model::{self, S};
use crate::sx;
use crate::types::*;
use ssz::{Encode, SszEncoder};
use std::sync::Arc;

/// a buffer with arbitrary contents, some with spare capacity
fn prefix(i: usize) -> Vec<u8> {
    let (n, spare) = [(0, 0), (1, 0), (5, 64), (33, 7), (4, 3), (0, 40), (70, 0)][i];
    let mut v = Vec::with_capacity(n + spare);
    v.extend_from_slice(&sx::bytes(n));
    v
}
const NPRE: usize = if sx::THOROUGH { 7 } else { 4 };
/// `buf` must be `pre` followed by `e`
fn appended(buf: &[u8], pre: &[u8], e: &[u8]) {
    sx::check(buf.len() == pre.len() + e.len(), "appending adds a different number of bytes than the standalone encoding");
    if buf.len() == pre.len() + e.len() {
        sx::check(model::beq(&buf[..pre.len()], pre), "appending changes bytes that were in the buffer");
        sx::check(model::beq(&buf[pre.len()..], e), "appended bytes differ from the standalone encoding");
    }
}
fn same(x: &[u8], e: &[u8]) {
    sx::check(model::beq(x, e), "two encoding entry points disagree");
}
/// entry points of one value
fn entry<T: M>(v: T, p: usize) {
    // the reference is independent of the library, so that a common error cannot hide
    let e = model::encode(&T::schema(), &v.val());
    let a = v.as_ssz_bytes();
    sx::out(&a);
    sx::cover(1);
    same(&a, &e);
    let pre = prefix(p);
    let mut buf = Vec::with_capacity(pre.capacity());
    buf.extend_from_slice(&pre);
    v.ssz_append(&mut buf);
    appended(&buf, &pre, &e);
    same(&ssz::ssz_encode(&v), &e);
    // references and Arc
    let r = &v;
    same(&(&r).as_ssz_bytes(), &e);
    same(&ssz::ssz_encode(&r), &e);
    let mut buf = pre.clone();
    (&&r).ssz_append(&mut buf);
    appended(&buf, &pre, &e);
    let arc = Arc::new(r);
    same(&arc.as_ssz_bytes(), &e);
    let mut buf = pre.clone();
    (&arc).ssz_append(&mut buf);
    appended(&buf, &pre, &e);
    // the metadata seen through references (a container is laid out by it)
    let _ = <&T as Encode>::is_ssz_fixed_len();
    // twice into the same buffer
    v.ssz_append(&mut buf);
    let mut ee = e.clone();
    ee.extend_from_slice(&e);
    appended(&buf, &pre, &ee);
}
/// the value in containers, tuples and lists: by value and by reference, derived-like manual encoding
fn nested<T: M>(v: T, p: usize) {
    let s = T::schema();
    let (h, t) = (sx::u16(), sx::bytes(2));
    let body = model::Val::L(vec![h.val(), v.val(), t.val(), v.val()]);
    let cs = S::Cont(vec![S::U(2), s.clone(), S::List(Box::new(S::U(1))), s.clone()]);
    let e = model::encode(&cs, &body);
    let pre = prefix(p);
    sx::cover(2);
    // tuples of references
    let tup = (&h, &v, &t, &v);
    same(&tup.as_ssz_bytes(), &e);
    let mut buf = pre.clone();
    tup.ssz_append(&mut buf);
    appended(&buf, &pre, &e);
    sx::out(&buf);
    // the manual encoder
    let nf = 2 * <T as Encode>::ssz_fixed_len() + 2 + 4;
    let mut buf = pre.clone();
    {
        let mut en = SszEncoder::container(&mut buf, nf);
        en.append(&h);
        en.append(&v);
        en.append(&t);
        en.append(&&v);
        let whole = en.finalize();
        let whole = whole.clone();
        appended(&whole, &pre, &e);
    }
    appended(&buf, &pre, &e);
    let mut buf = pre.clone();
    {
        let mut en = SszEncoder::container(&mut buf, nf);
        en.append_parameterized(true, |b| h.ssz_append(b));
        en.append_parameterized(<T as Encode>::is_ssz_fixed_len(), |b| v.ssz_append(b));
        en.append_parameterized(false, |b| t.ssz_append(b));
        en.append(&Arc::new(&v));
        en.finalize();
    }
    appended(&buf, &pre, &e);
    // lists of references and of owned items
    let le = model::encode(&S::List(Box::new(s.clone())), &model::Val::L(vec![v.val(), v.val()]));
    let refs = vec![&v, &v];
    if model::fixed(&s) != Some(0) {
        same(&refs.as_ssz_bytes(), &le);
        let mut buf = pre.clone();
        refs.ssz_append(&mut buf);
        appended(&buf, &pre, &le);
        let sm: smallvec::SmallVec<[&T; 1]> = refs.iter().copied().collect();
        same(&sm.as_ssz_bytes(), &le);
    }
    // options
    let o = Some(&v);
    let oe = model::encode(&S::Union(vec![None, Some(s.clone())]), &model::Val::Un(1, Some(Box::new(v.val()))));
    same(&o.as_ssz_bytes(), &oe);
    let mut buf = pre.clone();
    o.ssz_append(&mut buf);
    appended(&buf, &pre, &oe);
    // one more level: the container inside another container and inside a list
    let outer = (&h, &tup, vec![&tup, &tup]);
    let os = S::Cont(vec![S::U(2), cs.clone(), S::List(Box::new(cs.clone()))]);
    let oe = model::encode(&os, &model::Val::L(vec![h.val(), body.clone(), model::Val::L(vec![body.clone(), body])]));
    if model::fixed(&cs) != Some(0) {
        let mut buf = pre.clone();
        outer.ssz_append(&mut buf);
        appended(&buf, &pre, &oe);
    }
}
struct V;
impl Visitor for V {
    fn go<T: M>(&self, _n: usize, d: usize) {
        let nest = sx::split(2);
        let p = sx::split(NPRE);
        let d = if sx::THOROUGH { d } else { d.min(2) };
        if nest == 0 {
            entry(T::sym(d), p)
        } else {
            nested(T::sym(d.min(2)), p)
        }
    }
}
struct B(u32);
impl Big for B {
    fn go<T: M>(&self, d: usize) {
        let nest = sx::split(2);
        let p = sx::split(NPRE);
        sx::mode(1, self.0);
        let v = T::sym(d);
        sx::mode(0, 0);
        if nest == 0 {
            entry(v, p)
        } else {
            nested(v, p)
        }
    }
}
struct H;
impl Huge for H {
    fn go<T: M>(&self, v: T) {
        entry(v, 3)
    }
}
/// append sequences on the container encoder
fn sequence() {
    let k = sx::split(if sx::THOROUGH { 6 } else { 5 });
    let p = sx::split(NPRE);
    let pre = prefix(p);
    let mut kinds = vec![];
    let mut nf = 0;
    for _ in 0..k {
        let t = sx::choose(5);
        nf += [1, 4, 4, 4, 6][t];
        kinds.push(t);
    }
    let mut buf = pre.clone();
    let mut ss = vec![];
    let mut vs = vec![];
    {
        let mut en = SszEncoder::container(&mut buf, nf);
        macro_rules! item {
            ($t:ty, $d:expr) => {{
                let v = <$t as M>::sym($d);
                ss.push(<$t as M>::schema());
                vs.push(v.val());
                en.append(&v);
            }};
        }
        for t in kinds {
            match t {
                0 => item!(u8, 0),
                1 => item!(Vec<u8>, 1),
                2 => item!(Option<Vec<u16>>, 1),
                3 => {
                    // an inner container written by a nested encoder into the buffer it is handed
                    let (a, b) = (sx::u8(), sx::bytes(1));
                    ss.push(S::Cont(vec![S::U(1), S::List(Box::new(S::U(1)))]));
                    vs.push(model::Val::L(vec![a.val(), b.val()]));
                    en.append_parameterized(false, |w| {
                        let mut i = SszEncoder::container(w, 5);
                        i.append(&a);
                        i.append(&b);
                        i.finalize();
                    });
                }
                _ => item!((u16, u32), 0),
            }
        }
        en.finalize();
    }
    sx::cover(3);
    let e = model::encode(&S::Cont(ss), &model::Val::L(vs));
    sx::out(&buf);
    appended(&buf, &pre, &e);
}
pub fn run() {
    match sx::split(7) {
        0 => family(sx::split(NFAM), &V),
        1 => family_maps(sx::split(NMAPS), &V),
        2 => big(sx::split(NBIG), &B(sx::SEED)),
        3 => big_maps(sx::split(NBIGMAPS), &B(sx::SEED)),
        4 => huge(sx::split(NHUGE), &H),
        5 => sequence(),
        _ => legacy(sx::split(3), sx::split(NPRE)),
    }
}
fn legacy(i: usize, p: usize) {
    let pre = prefix(p);
    macro_rules! go {
        ($m:ident, $t:ty) => {{
            let v = <Option<$t> as M>::sym(3);
            let e = model::encode(&S::Legacy(Box::new(<$t as M>::schema())), &v.val());
            same(&$m::encode::as_ssz_bytes(&v), &e);
            let mut buf = pre.clone();
            $m::encode::ssz_append(&v, &mut buf);
            appended(&buf, &pre, &e);
            sx::out(&buf);
        }};
    }
    match i {
        0 => go!(leg_u16, u16),
        1 => go!(leg_vec, VecU16),
        _ => go!(leg_mid, VarMid),
    }
}
type VecU16 = Vec<u16>;
ssz::four_byte_option_impl!(leg_u16, u16);
ssz::four_byte_option_impl!(leg_vec, VecU16);
ssz::four_byte_option_impl!(leg_mid, VarMid);
