//! Hash-consed bit-vector expressions (width 1..=128) with aggressive local simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    /// constant value, symbol index or extract low bit
    pub k: u128,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// Concrete semantics of the binary operators; shared by constant folding and model evaluation.
/// Division by zero follows SMT-LIB (the executor never lets it be reached).
#[inline]
pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            ((sx(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Slt => (sx(x, w) < sx(y, w)) as u128,
        _ => unreachable!(),
    }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    /// symbol-set id of each node
    pub ss: Vec<u32>,
    pub sets: Vec<Box<[u64]>>,
    setmap: HashMap<Box<[u64]>, u32>,
    unions: HashMap<(u32, u32), u32, std::hash::BuildHasherDefault<Fx>>,
    inter: HashMap<(u32, u32), bool, std::hash::BuildHasherDefault<Fx>>,
    // model evaluation memo
    eval_stamp: Vec<u32>,
    eval_val: Vec<u128>,
    cur_stamp: u32,
    cur_model: usize,
    pub cur_model_hold: Option<std::rc::Rc<Vec<u8>>>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            map: HashMap::default(),
            ss: vec![],
            sets: vec![],
            setmap: HashMap::default(),
            unions: HashMap::default(),
            inter: HashMap::default(),
            eval_stamp: vec![],
            eval_val: vec![],
            cur_stamp: 0,
            cur_model: 0,
            cur_model_hold: None,
        };
        c.intern_set(Box::new([]));
        // nodes 0 and 1 are the boolean constants
        c.c(1, 0);
        c.c(1, 1);
        c
    }
    pub const FALSE: E = 0;
    pub const TRUE: E = 1;

    fn intern_set(&mut self, s: Box<[u64]>) -> u32 {
        if let Some(&i) = self.setmap.get(&s) {
            return i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(s.clone());
        self.setmap.insert(s, i);
        i
    }
    pub fn set_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.unions.get(&key) {
            return r;
        }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        let n = x.len().max(y.len());
        let mut v = vec![0u64; n];
        for i in 0..n {
            v[i] = x.get(i).copied().unwrap_or(0) | y.get(i).copied().unwrap_or(0);
        }
        let r = self.intern_set(v.into_boxed_slice());
        self.unions.insert(key, r);
        r
    }
    pub fn set_intersects(&mut self, a: u32, b: u32) -> bool {
        if a == 0 || b == 0 {
            return false;
        }
        if a == b {
            return true;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.inter.get(&key) {
            return r;
        }
        let (x, y) = (&self.sets[a as usize], &self.sets[b as usize]);
        let r = x.iter().zip(y.iter()).any(|(p, q)| p & q != 0);
        self.inter.insert(key, r);
        r
    }
    pub fn set_has(&self, s: u32, sym: u32) -> bool {
        self.sets[s as usize].get(sym as usize / 64).map_or(false, |w| w >> (sym % 64) & 1 == 1)
    }
    pub fn set_add(&mut self, s: u32, sym: u32) -> u32 {
        let mut v = self.sets[s as usize].to_vec();
        let i = sym as usize / 64;
        if v.len() <= i {
            v.resize(i + 1, 0);
        }
        v[i] |= 1 << (sym % 64);
        self.intern_set(v.into_boxed_slice())
    }
    pub fn set_syms(&self, s: u32) -> Vec<u32> {
        let mut out = vec![];
        for (i, w) in self.sets[s as usize].iter().enumerate() {
            let mut w = *w;
            while w != 0 {
                out.push(i as u32 * 64 + w.trailing_zeros());
                w &= w - 1;
            }
        }
        out
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let ss = match n.op {
            Op::Const => 0,
            Op::Sym => self.set_add(0, n.k as u32),
            Op::Extract | Op::SExt => self.ss[n.a as usize],
            Op::Ite => {
                let (x, y, z) = (self.ss[n.a as usize], self.ss[n.b as usize], self.ss[n.c as usize]);
                let u = self.set_union(x, y);
                self.set_union(u, z)
            }
            _ => {
                let (x, y) = (self.ss[n.a as usize], self.ss[n.b as usize]);
                self.set_union(x, y)
            }
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.ss.push(ss);
        self.eval_stamp.push(0);
        self.eval_val.push(0);
        self.map.insert(n, e);
        e
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn c(&mut self, w: u32, k: u128) -> E {
        self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn sym(&mut self, idx: u32) -> E {
        self.mk(Node { op: Op::Sym, w: 8, a: 0, b: 0, c: 0, k: idx as u128 })
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w: w as u16, a, b, c: 0, k: 0 })
    }

    /// A cheap unsigned upper bound.
    pub fn umax(&self, e: E, depth: u32) -> u128 {
        let n = self.n(e);
        let m = mask(n.w as u32);
        if depth == 0 {
            return if n.op == Op::Const { n.k } else { m };
        }
        match n.op {
            Op::Const => n.k,
            Op::Concat => {
                let wb = self.w(n.b);
                (self.umax(n.a, depth - 1) << wb) | self.umax(n.b, depth - 1)
            }
            Op::And => self.umax(n.a, depth - 1).min(self.umax(n.b, depth - 1)),
            Op::Ite => self.umax(n.b, depth - 1).max(self.umax(n.c, depth - 1)),
            Op::Add => match self.umax(n.a, depth - 1).checked_add(self.umax(n.b, depth - 1)) {
                Some(s) if s <= m => s,
                _ => m,
            },
            Op::Mul => match self.umax(n.a, depth - 1).checked_mul(self.umax(n.b, depth - 1)) {
                Some(s) if s <= m => s,
                _ => m,
            },
            Op::UDiv => match self.is_const(n.b) {
                Some(k) if k != 0 => self.umax(n.a, depth - 1) / k,
                _ => m,
            },
            Op::URem => match self.is_const(n.b) {
                Some(k) if k != 0 => self.umax(n.a, depth - 1).min(k - 1),
                _ => m,
            },
            Op::LShr => self.umax(n.a, depth - 1),
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => m,
        }
    }

    pub fn not1(&mut self, e: E) -> E {
        debug_assert_eq!(self.w(e), 1);
        self.bin(Op::Xor, e, Self::TRUE)
    }

    pub fn zext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        let z = self.c(w - we, 0);
        self.concat(z, e)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        let we = n.w as u32;
        if we == w {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = sx(n.k, we) as u128;
                self.c(w, v)
            }
            Op::Concat => {
                // sign bit constant zero?
                if let Some(k) = self.is_const(n.a) {
                    let wa = self.w(n.a);
                    if k >> (wa - 1) & 1 == 0 {
                        return self.zext(e, w);
                    } else {
                        let ones = self.c(w - we, u128::MAX);
                        return self.concat(ones, e);
                    }
                }
                self.mk(Node { op: Op::SExt, w: w as u16, a: e, b: 0, c: 0, k: 0 })
            }
            Op::SExt => self.sext(n.a, w),
            _ => self.mk(Node { op: Op::SExt, w: w as u16, a: e, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32 + nb.w as u32;
        debug_assert!(w <= 128);
        if na.op == Op::Const && nb.op == Op::Const {
            return self.c(w, (na.k << nb.w) | nb.k);
        }
        // right-nested canonical form: concat(x, concat(y, z))
        if na.op == Op::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        // merge head with the head of b
        let (hb, tb) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
        if let Some(m) = self.merge_adj(a, hb) {
            return match tb {
                None => m,
                Some(t) => self.concat(m, t),
            };
        }
        self.raw(Op::Concat, w, a, b)
    }
    /// merge two adjacent pieces when they form one simpler piece
    fn merge_adj(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && nb.op == Op::Const {
            return Some(self.c(na.w as u32 + nb.w as u32, (na.k << nb.w) | nb.k));
        }
        if na.op == Op::Extract {
            if nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
                return Some(self.extract(na.a, nb.k as u32, na.w as u32 + nb.w as u32));
            }
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let consts = self.is_const(na.b).is_some()
                && self.is_const(na.c).is_some()
                && self.is_const(nb.b).is_some()
                && self.is_const(nb.c).is_some();
            if consts {
                let x = self.concat(na.b, nb.b);
                let y = self.concat(na.c, nb.c);
                return Some(self.ite(na.a, x, y));
            }
        }
        None
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        let we = n.w as u32;
        debug_assert!(lo + w <= we);
        if lo == 0 && w == we {
            return e;
        }
        match n.op {
            Op::Const => self.c(w, n.k >> lo),
            Op::Extract => self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    self.extract(n.a, lo - wb, w)
                } else if lo + w <= wb {
                    self.extract(n.b, lo, w)
                } else {
                    let h = self.extract(n.a, 0, lo + w - wb);
                    let l = self.extract(n.b, lo, wb - lo);
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else if lo >= wi {
                    let s = self.extract(n.a, wi - 1, 1);
                    self.sext(s, w)
                } else {
                    let h = self.extract(n.a, lo, wi - lo);
                    self.sext(h, w)
                }
            }
            _ => self.mk(Node { op: Op::Extract, w: w as u16, a: e, b: 0, c: 0, k: lo as u128 }),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Const {
            return if nc.k == 1 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        // ite(!c, a, b)
        if nc.op == Op::Xor && nc.b == Self::TRUE {
            return self.ite(nc.a, b, a);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if w == 1 {
            match (na.op == Op::Const, nb.op == Op::Const) {
                (true, true) => return if na.k == 1 { c } else { self.not1(c) },
                (true, false) => {
                    return if na.k == 1 {
                        self.bin(Op::Or, c, b)
                    } else {
                        let n = self.not1(c);
                        self.bin(Op::And, n, b)
                    }
                }
                (false, true) => {
                    return if nb.k == 0 {
                        self.bin(Op::And, c, a)
                    } else {
                        let n = self.not1(c);
                        self.bin(Op::Or, n, a)
                    }
                }
                _ => {}
            }
        }
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // common-piece lifting: both concats split at the same place
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            if na.a == nb.a || na.b == nb.b {
                let h = self.ite(c, na.a, nb.a);
                let l = self.ite(c, na.b, nb.b);
                return self.concat(h, l);
            }
        }
        // ite(c, concat(0,x), const) with const fitting
        if na.op == Op::Concat && nb.op == Op::Const {
            if let Some(k) = self.is_const(na.a) {
                let wb = self.w(na.b);
                if nb.k >> wb == k {
                    let l0 = self.c(wb, nb.k);
                    let l = self.ite(c, na.b, l0);
                    return self.concat(na.a, l);
                }
            }
        }
        if nb.op == Op::Concat && na.op == Op::Const {
            if let Some(k) = self.is_const(nb.a) {
                let wb = self.w(nb.b);
                if na.k >> wb == k {
                    let l0 = self.c(wb, na.k);
                    let l = self.ite(c, l0, nb.b);
                    return self.concat(nb.a, l);
                }
            }
        }
        // two constants sharing high zero bits
        if na.op == Op::Const && nb.op == Op::Const && w > 1 {
            let m = na.k | nb.k;
            let bits = 128 - m.leading_zeros();
            if bits < w && bits >= 1 {
                let x = self.c(bits, na.k);
                let y = self.c(bits, nb.k);
                let l = self.ite(c, x, y);
                return self.zext(l, w);
            }
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b, k: 0 })
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let (mut na, mut nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        debug_assert_eq!(w, nb.w as u32, "{:?}", op);
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        if na.op == Op::Const && nb.op == Op::Const {
            let v = fold(op, w, na.k, nb.k);
            return self.c(rw, v);
        }
        // commutative: constants to the right, otherwise ordered
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if na.op == Op::Const || (nb.op != Op::Const && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut na, &mut nb);
            }
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if nb.op == Op::Const {
                    if nb.k == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(k) = self.is_const(na.b) {
                            let kk = self.c(w, k.wrapping_add(nb.k));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    // add of a constant to ite of constants
                    if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                        let x = self.bin(Op::Add, na.b, b);
                        let y = self.bin(Op::Add, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    if w == 1 {
                        return self.bin(Op::Xor, a, b);
                    }
                    // no-carry narrowing: zext(x) + k with small bound
                    if na.op == Op::Concat {
                        if let Some(0) = self.is_const(na.a) {
                            let wb = self.w(na.b);
                            if nb.k < (1u128 << wb) {
                                let ub = self.umax(na.b, 4);
                                if ub + nb.k <= mask(wb) {
                                    let kk = self.c(wb, nb.k);
                                    let s = self.bin(Op::Add, na.b, kk);
                                    return self.zext(s, w);
                                }
                            }
                            // low bits constant zero: concat(0, hi, 0..) + small k
                        }
                    }
                    // (x ++ 0s) + k where k < 2^len(0s)
                    if let Some((hi, zl)) = self.trailing_zero_piece(a) {
                        if nb.k < (1u128 << zl) {
                            let lo = self.c(zl, nb.k);
                            return self.concat(hi, lo);
                        }
                    }
                } else {
                    // x + (y - x)
                    if nb.op == Op::Sub && nb.b == a {
                        return nb.a;
                    }
                    if na.op == Op::Sub && na.b == b {
                        return na.a;
                    }
                    if na.op == Op::Add && self.is_const(na.b).is_some() {
                        let s = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                    if nb.op == Op::Add && self.is_const(nb.b).is_some() {
                        let s = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, s, nb.b);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(w, 0);
                }
                if nb.op == Op::Const {
                    let k = self.c(w, nb.k.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                if na.op == Op::Add {
                    if na.b == b {
                        return na.a;
                    }
                    if na.a == b {
                        return na.b;
                    }
                    if let Some(k) = self.is_const(na.b) {
                        let s = self.bin(Op::Sub, na.a, b);
                        let kk = self.c(w, k);
                        return self.bin(Op::Add, s, kk);
                    }
                }
                if nb.op == Op::Add {
                    if nb.a == a {
                        let z = self.c(w, 0);
                        return self.bin(Op::Sub, z, nb.b);
                    }
                    if let Some(k) = self.is_const(nb.b) {
                        let s = self.bin(Op::Sub, a, nb.a);
                        let kk = self.c(w, k.wrapping_neg());
                        return self.bin(Op::Add, s, kk);
                    }
                }
            }
            Op::Mul => {
                if nb.op == Op::Const {
                    if nb.k == 0 {
                        return b;
                    }
                    if nb.k == 1 {
                        return a;
                    }
                    if nb.k.is_power_of_two() {
                        let s = self.c(w, nb.k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if nb.op == Op::Const && nb.k.is_power_of_two() {
                    let s = self.c(w, nb.k.trailing_zeros() as u128);
                    return self.bin(Op::LShr, a, s);
                }
            }
            Op::URem => {
                if nb.op == Op::Const && nb.k.is_power_of_two() {
                    let s = self.c(w, nb.k - 1);
                    return self.bin(Op::And, a, s);
                }
            }
            Op::SDiv | Op::SRem => {}
            Op::And => {
                if a == b {
                    return a;
                }
                if nb.op == Op::Const {
                    if nb.k == 0 {
                        return b;
                    }
                    if nb.k == m {
                        return a;
                    }
                    // split at runs of the mask
                    let tz = nb.k.trailing_zeros();
                    if tz > 0 {
                        let hi = self.extract(a, tz, w - tz);
                        let hk = self.c(w - tz, nb.k >> tz);
                        let h = self.bin(Op::And, hi, hk);
                        let z = self.c(tz, 0);
                        return self.concat(h, z);
                    }
                    let to = nb.k.trailing_ones();
                    // low run of ones
                    if to < w {
                        let hi = self.extract(a, to, w - to);
                        let hk = self.c(w - to, nb.k >> to);
                        let h = self.bin(Op::And, hi, hk);
                        let l = self.extract(a, 0, to);
                        return self.concat(h, l);
                    }
                }
                if w == 1 {
                    if na.op == Op::Xor && na.b == Self::TRUE && na.a == b {
                        return Self::FALSE;
                    }
                    if nb.op == Op::Xor && nb.b == Self::TRUE && nb.a == a {
                        return Self::FALSE;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                }
                if let Some(r) = self.split_bitwise(op, a, b) {
                    return r;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if nb.op == Op::Const {
                    if nb.k == 0 {
                        return a;
                    }
                    if nb.k == m {
                        return b;
                    }
                    let tz = nb.k.trailing_zeros();
                    if tz > 0 {
                        let hi = self.extract(a, tz, w - tz);
                        let hk = self.c(w - tz, nb.k >> tz);
                        let h = self.bin(Op::Or, hi, hk);
                        let l = self.extract(a, 0, tz);
                        return self.concat(h, l);
                    }
                    let to = nb.k.trailing_ones();
                    if to < w {
                        let hi = self.extract(a, to, w - to);
                        let hk = self.c(w - to, nb.k >> to);
                        let h = self.bin(Op::Or, hi, hk);
                        let l = self.c(to, u128::MAX);
                        return self.concat(h, l);
                    }
                }
                if w == 1 {
                    if na.op == Op::Xor && na.b == Self::TRUE && na.a == b {
                        return Self::TRUE;
                    }
                    if nb.op == Op::Xor && nb.b == Self::TRUE && nb.a == a {
                        return Self::TRUE;
                    }
                }
                if let Some(r) = self.split_bitwise(op, a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c(w, 0);
                }
                if nb.op == Op::Const {
                    if nb.k == 0 {
                        return a;
                    }
                    if na.op == Op::Xor {
                        if let Some(k) = self.is_const(na.b) {
                            let kk = self.c(w, k ^ nb.k);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                        let x = self.bin(Op::Xor, na.b, b);
                        let y = self.bin(Op::Xor, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if let Some(r) = self.split_bitwise(op, a, b) {
                    return r;
                }
            }
            Op::Shl => {
                if nb.op == Op::Const {
                    let s = nb.k;
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.c(w, 0);
                    }
                    let s = s as u32;
                    let h = self.extract(a, 0, w - s);
                    let z = self.c(s, 0);
                    return self.concat(h, z);
                }
                if na.op == Op::Const && na.k == 0 {
                    return a;
                }
            }
            Op::LShr => {
                if nb.op == Op::Const {
                    let s = nb.k;
                    if s == 0 {
                        return a;
                    }
                    if s >= w as u128 {
                        return self.c(w, 0);
                    }
                    let s = s as u32;
                    let l = self.extract(a, s, w - s);
                    return self.zext(l, w);
                }
                if na.op == Op::Const && na.k == 0 {
                    return a;
                }
            }
            Op::AShr => {
                if nb.op == Op::Const {
                    let s = nb.k.min(w as u128 - 1) as u32;
                    if s == 0 {
                        return a;
                    }
                    let l = self.extract(a, s, w - s);
                    return self.sext(l, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return Self::TRUE;
                }
                if w == 1 {
                    if nb.op == Op::Const {
                        return if nb.k == 1 { a } else { self.not1(a) };
                    }
                    let x = self.bin(Op::Xor, a, b);
                    return self.not1(x);
                }
                if nb.op == Op::Const {
                    match na.op {
                        Op::Concat => {
                            let wb = self.w(na.b);
                            let kh = self.c(w - wb, nb.k >> wb);
                            let kl = self.c(wb, nb.k);
                            let h = self.bin(Op::Eq, na.a, kh);
                            if h == Self::FALSE {
                                return h;
                            }
                            let l = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Add => {
                            if let Some(k) = self.is_const(na.b) {
                                let kk = self.c(w, nb.k.wrapping_sub(k));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k) = self.is_const(na.b) {
                                let kk = self.c(w, nb.k ^ k);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Sub => {
                            if nb.k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                            if let Some(k) = self.is_const(na.a) {
                                let kk = self.c(w, k.wrapping_sub(nb.k));
                                return self.bin(Op::Eq, na.b, kk);
                            }
                        }
                        Op::Ite => {
                            let cb = self.is_const(na.b).is_some();
                            let cc = self.is_const(na.c).is_some();
                            if cb || cc {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::SExt => {
                            let wi = self.w(na.a);
                            let kl = nb.k & mask(wi);
                            let back = (sx(kl, wi) as u128) & m;
                            if back != nb.k {
                                return Self::FALSE;
                            }
                            let kk = self.c(wi, kl);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        _ => {}
                    }
                    if nb.k > self.umax(a, 4) {
                        return Self::FALSE;
                    }
                } else {
                    if na.op == Op::Concat && nb.op == Op::Concat {
                        let (wa, wb) = (self.w(na.b), self.w(nb.b));
                        let cut = wa.min(wb);
                        let ah = self.extract(a, cut, w - cut);
                        let bh = self.extract(b, cut, w - cut);
                        let al = self.extract(a, 0, cut);
                        let bl = self.extract(b, 0, cut);
                        let h = self.bin(Op::Eq, ah, bh);
                        if h == Self::FALSE {
                            return h;
                        }
                        let l = self.bin(Op::Eq, al, bl);
                        return self.bin(Op::And, h, l);
                    }
                    if na.op == Op::Add && na.a == b {
                        let z = self.c(w, 0);
                        return self.bin(Op::Eq, na.b, z);
                    }
                    if nb.op == Op::Add && nb.a == a {
                        let z = self.c(w, 0);
                        return self.bin(Op::Eq, nb.b, z);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return Self::FALSE;
                }
                if w == 1 {
                    let n = self.not1(a);
                    return self.bin(Op::And, n, b);
                }
                if nb.op == Op::Const {
                    if nb.k == 0 {
                        return Self::FALSE;
                    }
                    if nb.k == 1 {
                        let z = self.c(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if self.umax(a, 4) < nb.k {
                        return Self::TRUE;
                    }
                    if nb.k == m {
                        let e = self.bin(Op::Eq, a, b);
                        return self.not1(e);
                    }
                }
                if na.op == Op::Const {
                    if na.k == m {
                        return Self::FALSE;
                    }
                    if na.k == 0 {
                        let e = self.bin(Op::Eq, b, a);
                        return self.not1(e);
                    }
                    if self.umax(b, 4) <= na.k {
                        return Self::FALSE;
                    }
                }
                // strip common leading zeros
                let (za, zb) = (self.lead_zeros(a), self.lead_zeros(b));
                let z = za.min(zb);
                if z > 0 && z < w {
                    let x = self.extract(a, 0, w - z);
                    let y = self.extract(b, 0, w - z);
                    return self.bin(Op::Ult, x, y);
                }
                // ite of constants against constant
                if nb.op == Op::Const && na.op == Op::Ite {
                    if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() {
                        let x = self.bin(Op::Ult, na.b, b);
                        let y = self.bin(Op::Ult, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if na.op == Op::Const && nb.op == Op::Ite {
                    if self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some() {
                        let x = self.bin(Op::Ult, a, nb.b);
                        let y = self.bin(Op::Ult, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
            }
            Op::Slt => {
                if a == b {
                    return Self::FALSE;
                }
                // both known non-negative -> unsigned
                let half = 1u128 << (w - 1);
                let ua = self.umax(a, 4);
                let ub = self.umax(b, 4);
                if ua < half && ub < half {
                    return self.bin(Op::Ult, a, b);
                }
                if nb.op == Op::Const && nb.k == 0 {
                    // sign bit
                    return self.extract(a, w - 1, 1);
                }
                if na.op == Op::Const && na.k == m {
                    // -1 < b  <=> sign bit of b clear
                    let s = self.extract(b, w - 1, 1);
                    return self.not1(s);
                }
                if nb.op == Op::Const && nb.k == m && false {
                    return a;
                }
            }
            _ => unreachable!(),
        }
        self.raw(op, rw, a, b)
    }
    fn lead_zeros(&self, e: E) -> u32 {
        let n = self.n(e);
        match n.op {
            Op::Const => n.w as u32 - (128 - n.k.leading_zeros()),
            Op::Concat => match self.is_const(n.a) {
                Some(0) => self.w(n.a),
                _ => 0,
            },
            _ => 0,
        }
    }
    fn trailing_zero_piece(&mut self, e: E) -> Option<(E, u32)> {
        let mut pieces = vec![];
        let mut cur = e;
        loop {
            let n = self.n(cur);
            if n.op == Op::Concat {
                pieces.push(n.a);
                cur = n.b;
            } else {
                break;
            }
        }
        if pieces.is_empty() || self.is_const(cur) != Some(0) {
            return None;
        }
        let wl = self.w(cur);
        let mut hi = pieces.pop().unwrap();
        while let Some(p) = pieces.pop() {
            hi = self.concat(p, hi);
        }
        Some((hi, wl))
    }
    /// distribute a bitwise operator over concat boundaries
    fn split_bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32;
        let cut = match (na.op, nb.op) {
            (Op::Concat, Op::Concat) => self.w(na.b).max(self.w(nb.b)),
            (Op::Concat, Op::Const) => self.w(na.b),
            (Op::Const, Op::Concat) => self.w(nb.b),
            (Op::Concat, _) if self.is_const(na.a).is_some() => self.w(na.b),
            (_, Op::Concat) if self.is_const(nb.a).is_some() => self.w(nb.b),
            _ => return None,
        };
        let ah = self.extract(a, cut, w - cut);
        let bh = self.extract(b, cut, w - cut);
        let al = self.extract(a, 0, cut);
        let bl = self.extract(b, 0, cut);
        let h = self.bin(op, ah, bh);
        let l = self.bin(op, al, bl);
        Some(self.concat(h, l))
    }

    // ---------------------------------------------------------------- model evaluation
    pub fn eval(&mut self, e: E, model: &std::rc::Rc<Vec<u8>>) -> u128 {
        let id = std::rc::Rc::as_ptr(model) as usize;
        if self.cur_model != id || self.cur_model_hold.is_none() {
            self.cur_model = id;
            self.cur_model_hold = Some(model.clone());
            self.cur_stamp += 1;
        }
        let st = self.cur_stamp;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.eval_stamp[xi] == st {
                stack.pop();
                continue;
            }
            let n = self.nodes[xi];
            let kids: [E; 3];
            let nk;
            match n.op {
                Op::Const => {
                    self.eval_val[xi] = n.k;
                    self.eval_stamp[xi] = st;
                    stack.pop();
                    continue;
                }
                Op::Sym => {
                    self.eval_val[xi] = model.get(n.k as usize).copied().unwrap_or(0) as u128;
                    self.eval_stamp[xi] = st;
                    stack.pop();
                    continue;
                }
                Op::Ite => {
                    kids = [n.a, n.b, n.c];
                    nk = 3;
                }
                Op::Extract | Op::SExt => {
                    kids = [n.a, 0, 0];
                    nk = 1;
                }
                _ => {
                    kids = [n.a, n.b, 0];
                    nk = 2;
                }
            }
            let mut ready = true;
            for k in 0..nk {
                if self.eval_stamp[kids[k] as usize] != st {
                    stack.push(kids[k]);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let va = self.eval_val[n.a as usize];
            let v = match n.op {
                Op::Ite => {
                    if va == 1 {
                        self.eval_val[n.b as usize]
                    } else {
                        self.eval_val[n.c as usize]
                    }
                }
                Op::Extract => (va >> n.k) & mask(n.w as u32),
                Op::SExt => (sx(va, self.nodes[n.a as usize].w as u32) as u128) & mask(n.w as u32),
                Op::Concat => (va << self.nodes[n.b as usize].w) | self.eval_val[n.b as usize],
                op => fold(op, self.nodes[n.a as usize].w as u32, va, self.eval_val[n.b as usize]),
            };
            self.eval_val[xi] = v;
            self.eval_stamp[xi] = st;
            stack.pop();
        }
        self.eval_val[e as usize]
    }

    /// Rebuild `e` with the given symbols replaced by constants.
    pub fn subst(&mut self, e: E, known: &HashMap<u32, u8>, kset: u32, memo: &mut HashMap<E, E>) -> E {
        let ss = self.ss[e as usize];
        if !self.set_intersects(ss, kset) {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.n(e);
        let r = match n.op {
            Op::Const => e,
            Op::Sym => match known.get(&(n.k as u32)) {
                Some(&v) => self.c(8, v as u128),
                None => e,
            },
            Op::Ite => {
                let c = self.subst(n.a, known, kset, memo);
                if let Some(k) = self.is_const(c) {
                    if k == 1 {
                        self.subst(n.b, known, kset, memo)
                    } else {
                        self.subst(n.c, known, kset, memo)
                    }
                } else {
                    let x = self.subst(n.b, known, kset, memo);
                    let y = self.subst(n.c, known, kset, memo);
                    self.ite(c, x, y)
                }
            }
            Op::Extract => {
                let x = self.subst(n.a, known, kset, memo);
                self.extract(x, n.k as u32, n.w as u32)
            }
            Op::SExt => {
                let x = self.subst(n.a, known, kset, memo);
                self.sext(x, n.w as u32)
            }
            Op::Concat => {
                let x = self.subst(n.a, known, kset, memo);
                let y = self.subst(n.b, known, kset, memo);
                self.concat(x, y)
            }
            op => {
                let x = self.subst(n.a, known, kset, memo);
                let y = self.subst(n.b, known, kset, memo);
                self.bin(op, x, y)
            }
        };
        memo.insert(e, r);
        r
    }

    /// Collapsing leading/trailing zero counts and popcount to plain expressions.
    pub fn ctlz(&mut self, e: E) -> E {
        let w = self.w(e);
        let mut r = self.c(w, w as u128);
        for i in 0..w {
            let bit = self.extract(e, i, 1);
            let k = self.c(w, (w - 1 - i) as u128);
            r = self.ite(bit, k, r);
        }
        r
    }
    pub fn cttz(&mut self, e: E) -> E {
        let w = self.w(e);
        let mut r = self.c(w, w as u128);
        for i in (0..w).rev() {
            let bit = self.extract(e, i, 1);
            let k = self.c(w, i as u128);
            r = self.ite(bit, k, r);
        }
        r
    }
    pub fn ctpop(&mut self, e: E) -> E {
        let w = self.w(e);
        let mut konst = 0u128;
        let bits = 32 - w.leading_zeros();
        // sum in a narrow width, then extend
        let nw = bits.min(w);
        let mut acc: Option<E> = None;
        for i in 0..w {
            let bit = self.extract(e, i, 1);
            if let Some(k) = self.is_const(bit) {
                konst += k;
                continue;
            }
            let z = self.zext(bit, nw);
            acc = Some(match acc {
                None => z,
                Some(a) => self.bin(Op::Add, a, z),
            });
        }
        let k = self.c(nw, konst);
        let s = match acc {
            None => k,
            Some(a) => self.bin(Op::Add, a, k),
        };
        self.zext(s, w)
    }

    pub fn smt(&self, e: E) -> String {
        // tree printing with let-free sharing through define-fun names is done by the solver dump
        fn go(c: &Ctx, e: E, out: &mut String, depth: u32) {
            use std::fmt::Write;
            let n = c.n(e);
            if depth > 40 {
                out.push_str("...");
                return;
            }
            match n.op {
                Op::Const => {
                    let _ = write!(out, "{:#x}:{}", n.k, n.w);
                }
                Op::Sym => {
                    let _ = write!(out, "b{}", n.k);
                }
                Op::Extract => {
                    let _ = write!(out, "(ex[{}+{}] ", n.k, n.w);
                    go(c, n.a, out, depth + 1);
                    out.push(')');
                }
                _ => {
                    let _ = write!(out, "({:?} ", n.op);
                    go(c, n.a, out, depth + 1);
                    if n.op != Op::SExt {
                        out.push(' ');
                        go(c, n.b, out, depth + 1);
                    }
                    if n.op == Op::Ite {
                        out.push(' ');
                        go(c, n.c, out, depth + 1);
                    }
                    out.push(')');
                }
            }
        }
        let mut s = String::new();
        go(self, e, &mut s, 0);
        s
    }
}
