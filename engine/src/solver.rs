//! Z3 (C API through dlopen): translation of expression DAGs, incremental assumption-based checks, models.
use crate::dyn_api;
use crate::expr::*;
use crate::llvm::{open_lib, P};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

dyn_api!(Z3 {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(P) -> P;
    fn Z3_del_context(P) -> ();
    fn Z3_set_error_handler(P, P) -> ();
    fn Z3_mk_bv_sort(P, c_uint) -> P;
    fn Z3_mk_bool_sort(P) -> P;
    fn Z3_mk_string_symbol(P, *const c_char) -> P;
    fn Z3_mk_const(P, P, P) -> P;
    fn Z3_mk_numeral(P, *const c_char, P) -> P;
    fn Z3_mk_unsigned_int64(P, u64, P) -> P;
    fn Z3_mk_true(P) -> P;
    fn Z3_mk_false(P) -> P;
    fn Z3_inc_ref(P, P) -> ();
    fn Z3_mk_bvadd(P, P, P) -> P;
    fn Z3_mk_bvsub(P, P, P) -> P;
    fn Z3_mk_bvmul(P, P, P) -> P;
    fn Z3_mk_bvudiv(P, P, P) -> P;
    fn Z3_mk_bvsdiv(P, P, P) -> P;
    fn Z3_mk_bvurem(P, P, P) -> P;
    fn Z3_mk_bvsrem(P, P, P) -> P;
    fn Z3_mk_bvand(P, P, P) -> P;
    fn Z3_mk_bvor(P, P, P) -> P;
    fn Z3_mk_bvxor(P, P, P) -> P;
    fn Z3_mk_bvshl(P, P, P) -> P;
    fn Z3_mk_bvlshr(P, P, P) -> P;
    fn Z3_mk_bvashr(P, P, P) -> P;
    fn Z3_mk_bvult(P, P, P) -> P;
    fn Z3_mk_bvslt(P, P, P) -> P;
    fn Z3_mk_concat(P, P, P) -> P;
    fn Z3_mk_extract(P, c_uint, c_uint, P) -> P;
    fn Z3_mk_sign_ext(P, c_uint, P) -> P;
    fn Z3_mk_eq(P, P, P) -> P;
    fn Z3_mk_ite(P, P, P, P) -> P;
    fn Z3_mk_xor(P, P, P) -> P;
    fn Z3_mk_and(P, c_uint, *const P) -> P;
    fn Z3_mk_or(P, c_uint, *const P) -> P;
    fn Z3_mk_not(P, P) -> P;
    fn Z3_mk_implies(P, P, P) -> P;
    fn Z3_mk_solver_for_logic(P, P) -> P;
    fn Z3_solver_inc_ref(P, P) -> ();
    fn Z3_solver_dec_ref(P, P) -> ();
    fn Z3_solver_assert(P, P, P) -> ();
    fn Z3_solver_check_assumptions(P, P, c_uint, *const P) -> c_int;
    fn Z3_solver_get_model(P, P) -> P;
    fn Z3_model_inc_ref(P, P) -> ();
    fn Z3_model_dec_ref(P, P) -> ();
    fn Z3_model_eval(P, P, P, bool, *mut P) -> bool;
    fn Z3_get_numeral_uint64(P, P, *mut u64) -> bool;
    fn Z3_mk_params(P) -> P;
    fn Z3_params_inc_ref(P, P) -> ();
    fn Z3_params_set_uint(P, P, P, c_uint) -> ();
    fn Z3_solver_set_params(P, P, P) -> ();
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_interrupt(P) -> ();
    fn Z3_benchmark_to_smtlib_string(P, *const c_char, *const c_char, *const c_char, *const c_char, c_uint, *const P, P) -> *const c_char;
});

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct SStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time_s: f64,
    pub max_s: f64,
}

pub struct Solver {
    z: Z3,
    ctx: P,
    solver: P,
    bv: Vec<P>,
    bl: Vec<P>,
    proxy: HashMap<E, P>,
    /// quotient and remainder of divisions by a constant, and what defines them
    div: HashMap<(E, E), (P, P)>,
    axioms: Vec<P>,
    pub st: SStats,
    pub cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u8)>>>>,
    since_reset: u32,
    pub reset_every: u32,
    pub timeout_ms: u32,
    pub dump_dir: Option<String>,
    pub dump_every: u64,
    pub tid: usize,
}

unsafe extern "C" fn on_err(_c: P, code: c_int) {
    if stopped() {
        return; // an interrupted operation; its result is not used
    }
    eprintln!("z3 error {code}");
    std::process::abort();
}

/// raised by the monitor (deadline or memory): no further queries are started
pub static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static CTXS: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(vec![]);
pub fn stopped() -> bool {
    STOP.load(std::sync::atomic::Ordering::Relaxed)
}
/// interrupt the queries that are running
pub fn interrupt_all(lib: &str) {
    STOP.store(true, std::sync::atomic::Ordering::Relaxed);
    let z = Z3::load(open_lib(lib));
    let g = CTXS.lock().unwrap();
    for c in g.iter() {
        unsafe { (z.Z3_interrupt)(*c as P) }
    }
}

impl Solver {
    pub fn new(lib: &str, timeout_ms: u32) -> Self {
        let z = Z3::load(open_lib(lib));
        let mut s = Solver {
            z,
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            bv: vec![],
            bl: vec![],
            proxy: HashMap::new(),
            div: HashMap::new(),
            axioms: vec![],
            st: SStats::default(),
            cache: HashMap::new(),
            since_reset: 0,
            reset_every: 1,
            timeout_ms,
            dump_dir: None,
            dump_every: 0,
            tid: 0,
        };
        s.open();
        s
    }
    pub fn version(&self) -> String {
        unsafe { CStr::from_ptr((self.z.Z3_get_full_version)()).to_string_lossy().into_owned() }
    }
    fn open(&mut self) {
        unsafe {
            let z = &self.z;
            let cfg = (z.Z3_mk_config)();
            self.ctx = (z.Z3_mk_context_rc)(cfg);
            (z.Z3_set_error_handler)(self.ctx, on_err as *const () as P);
        }
        CTXS.lock().unwrap().push(self.ctx as usize);
        self.solver = std::ptr::null_mut();
        self.bv.clear();
        self.bl.clear();
        self.div.clear();
        self.axioms.clear();
        self.new_solver();
    }
    /// forget everything (called when the expression context is replaced)
    pub fn reset(&mut self) {
        CTXS.lock().unwrap().retain(|c| *c != self.ctx as usize);
        unsafe {
            (self.z.Z3_solver_dec_ref)(self.ctx, self.solver);
            (self.z.Z3_del_context)(self.ctx);
        }
        self.cache.clear();
        self.open();
    }
    fn new_solver(&mut self) {
        unsafe {
            let z = &self.z;
            let c = self.ctx;
            if !self.solver.is_null() {
                (z.Z3_solver_dec_ref)(c, self.solver);
            }
            let l = (z.Z3_mk_string_symbol)(c, c"QF_BV".as_ptr());
            self.solver = (z.Z3_mk_solver_for_logic)(c, l);
            (z.Z3_solver_inc_ref)(c, self.solver);
            let p = (z.Z3_mk_params)(c);
            (z.Z3_params_inc_ref)(c, p);
            let t = (z.Z3_mk_string_symbol)(c, c"timeout".as_ptr());
            (z.Z3_params_set_uint)(c, p, t, self.timeout_ms);
            (z.Z3_solver_set_params)(c, self.solver, p);
            for ax in &self.axioms {
                (z.Z3_solver_assert)(c, self.solver, *ax);
            }
        }
        self.proxy.clear();
        self.since_reset = 0;
    }
    fn keep(&self, p: P) -> P {
        unsafe { (self.z.Z3_inc_ref)(self.ctx, p) };
        p
    }
    fn grow(&mut self, n: usize) {
        if self.bv.len() < n {
            self.bv.resize(n, std::ptr::null_mut());
            self.bl.resize(n, std::ptr::null_mut());
        }
    }
    /// make sure every node below e is translated (w==1 nodes as Bool, the others as BV)
    fn tr(&mut self, cx: &Ctx, e: E) {
        self.grow(cx.nodes.len());
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            let n = cx.nodes[xi];
            let done = if n.w == 1 { !self.bl[xi].is_null() } else { !self.bv[xi].is_null() };
            if done {
                stack.pop();
                continue;
            }
            let kids: &[E] = match n.op {
                Op::Const | Op::Sym => &[],
                Op::Ite => &[n.a, n.b, n.c],
                Op::Extract | Op::SExt => &[n.a],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for &k in kids {
                let kk = k as usize;
                let d = if cx.nodes[kk].w == 1 { !self.bl[kk].is_null() } else { !self.bv[kk].is_null() };
                if !d {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            stack.pop();
            self.tr1(cx, x);
        }
    }
    fn as_bv(&mut self, cx: &Ctx, e: E) -> P {
        let i = e as usize;
        if self.bv[i].is_null() {
            debug_assert_eq!(cx.nodes[i].w, 1);
            unsafe {
                let z = &self.z;
                let c = self.ctx;
                let s = (z.Z3_mk_bv_sort)(c, 1);
                let one = self.keep((z.Z3_mk_unsigned_int64)(c, 1, s));
                let zero = self.keep((z.Z3_mk_unsigned_int64)(c, 0, s));
                self.bv[i] = self.keep((z.Z3_mk_ite)(c, self.bl[i], one, zero));
            }
        }
        self.bv[i]
    }
    fn tr1(&mut self, cx: &Ctx, e: E) {
        let n = cx.nodes[e as usize];
        let c = self.ctx;
        unsafe {
            let w = n.w as c_uint;
            if n.op == Op::Const {
                if w == 1 {
                    let p = if n.k == 1 { (self.z.Z3_mk_true)(c) } else { (self.z.Z3_mk_false)(c) };
                    self.bl[e as usize] = self.keep(p);
                } else {
                    let s = (self.z.Z3_mk_bv_sort)(c, w);
                    let p = if n.k <= u64::MAX as u128 {
                        (self.z.Z3_mk_unsigned_int64)(c, n.k as u64, s)
                    } else {
                        let t = CString::new(n.k.to_string()).unwrap();
                        (self.z.Z3_mk_numeral)(c, t.as_ptr(), s)
                    };
                    self.bv[e as usize] = self.keep(p);
                }
                return;
            }
            if n.op == Op::Sym {
                let s = (self.z.Z3_mk_bv_sort)(c, w);
                let t = CString::new(format!("b{}", n.k)).unwrap();
                let y = (self.z.Z3_mk_string_symbol)(c, t.as_ptr());
                self.bv[e as usize] = self.keep((self.z.Z3_mk_const)(c, y, s));
                return;
            }
            let wa = cx.nodes[n.a as usize].w;
            if n.w == 1 {
                let p = match n.op {
                    Op::Eq if wa == 1 => {
                        let x = (self.z.Z3_mk_xor)(c, self.bl[n.a as usize], self.bl[n.b as usize]);
                        let x = self.keep(x);
                        (self.z.Z3_mk_not)(c, x)
                    }
                    Op::Eq => (self.z.Z3_mk_eq)(c, self.bv[n.a as usize], self.bv[n.b as usize]),
                    Op::Ult => {
                        let (x, y) = (self.as_bv(cx, n.a), self.as_bv(cx, n.b));
                        (self.z.Z3_mk_bvult)(c, x, y)
                    }
                    Op::Slt => {
                        let (x, y) = (self.as_bv(cx, n.a), self.as_bv(cx, n.b));
                        (self.z.Z3_mk_bvslt)(c, x, y)
                    }
                    Op::And => {
                        let v = [self.bl[n.a as usize], self.bl[n.b as usize]];
                        (self.z.Z3_mk_and)(c, 2, v.as_ptr())
                    }
                    Op::Or => {
                        let v = [self.bl[n.a as usize], self.bl[n.b as usize]];
                        (self.z.Z3_mk_or)(c, 2, v.as_ptr())
                    }
                    Op::Xor if n.b == Ctx::TRUE => (self.z.Z3_mk_not)(c, self.bl[n.a as usize]),
                    Op::Xor | Op::Add | Op::Sub => {
                        (self.z.Z3_mk_xor)(c, self.bl[n.a as usize], self.bl[n.b as usize])
                    }
                    Op::Ite => (self.z.Z3_mk_ite)(
                        c,
                        self.bl[n.a as usize],
                        self.bl[n.b as usize],
                        self.bl[n.c as usize],
                    ),
                    Op::Extract => {
                        let b = (self.z.Z3_mk_extract)(c, n.k as c_uint, n.k as c_uint, self.bv[n.a as usize]);
                        let b = self.keep(b);
                        let s = (self.z.Z3_mk_bv_sort)(c, 1);
                        let one = self.keep((self.z.Z3_mk_unsigned_int64)(c, 1, s));
                        (self.z.Z3_mk_eq)(c, b, one)
                    }
                    o => {
                        // rare (1-bit mul/shift/div): go through BV
                        let (x, y) = (self.as_bv(cx, n.a), self.as_bv(cx, n.b));
                        let r = self.bvop(o, x, y);
                        let r = self.keep(r);
                        let s = (self.z.Z3_mk_bv_sort)(c, 1);
                        let one = self.keep((self.z.Z3_mk_unsigned_int64)(c, 1, s));
                        (self.z.Z3_mk_eq)(c, r, one)
                    }
                };
                self.bl[e as usize] = self.keep(p);
                return;
            }
            let p = match n.op {
                Op::Ite => {
                    (self.z.Z3_mk_ite)(c, self.bl[n.a as usize], self.bv[n.b as usize], self.bv[n.c as usize])
                }
                Op::Concat => {
                    let (x, y) = (self.as_bv(cx, n.a), self.as_bv(cx, n.b));
                    (self.z.Z3_mk_concat)(c, x, y)
                }
                Op::Extract => {
                    let lo = n.k as c_uint;
                    (self.z.Z3_mk_extract)(c, lo + w - 1, lo, self.bv[n.a as usize])
                }
                Op::SExt => {
                    let x = self.as_bv(cx, n.a);
                    (self.z.Z3_mk_sign_ext)(c, w - wa as c_uint, x)
                }
                Op::UDiv | Op::URem if matches!(cx.is_const(n.b), Some(k) if k > 1) => self.divrem(cx, n.op, n.a, n.b),
                o => self.bvop(o, self.bv[n.a as usize], self.bv[n.b as usize]),
            };
            self.bv[e as usize] = self.keep(p);
        }
    }
    /// Division by a constant through its definition: a = q * k + r, r < k, no overflow. The quotient and the
    /// remainder are new constants which the axiom determines for every a, so asserting it excludes nothing.
    unsafe fn divrem(&mut self, cx: &Ctx, op: Op, a: E, b: E) -> P {
        let c = self.ctx;
        if !self.div.contains_key(&(a, b)) {
            let w = cx.nodes[a as usize].w as c_uint;
            let (x, k) = (self.bv[a as usize], self.bv[b as usize]);
            let s = (self.z.Z3_mk_bv_sort)(c, w);
            let q = self.fresh(format!("q{a}_{b}"), s);
            let r = self.fresh(format!("r{a}_{b}"), s);
            let max = crate::expr::mask(w) / cx.is_const(b).unwrap();
            let m = if max <= u64::MAX as u128 {
                (self.z.Z3_mk_unsigned_int64)(c, max as u64, s)
            } else {
                let t = CString::new(max.to_string()).unwrap();
                (self.z.Z3_mk_numeral)(c, t.as_ptr(), s)
            };
            let m = self.keep(m);
            let z = &self.z;
            let qk = self.keep((z.Z3_mk_bvmul)(c, q, k));
            let sum = self.keep((z.Z3_mk_bvadd)(c, qk, r));
            let e0 = self.keep((z.Z3_mk_eq)(c, sum, x));
            let e1 = self.keep((z.Z3_mk_bvult)(c, r, k));
            let over = self.keep((z.Z3_mk_bvult)(c, m, q));
            let e2 = self.keep((z.Z3_mk_not)(c, over));
            let wrap = self.keep((z.Z3_mk_bvult)(c, x, r));
            let e3 = self.keep((z.Z3_mk_not)(c, wrap));
            let v = [e0, e1, e2, e3];
            let ax = self.keep((z.Z3_mk_and)(c, 4, v.as_ptr()));
            (z.Z3_solver_assert)(c, self.solver, ax);
            self.axioms.push(ax);
            self.div.insert((a, b), (q, r));
        }
        let (q, r) = self.div[&(a, b)];
        if op == Op::UDiv {
            q
        } else {
            r
        }
    }
    unsafe fn fresh(&mut self, name: String, s: P) -> P {
        let t = CString::new(name).unwrap();
        let y = (self.z.Z3_mk_string_symbol)(self.ctx, t.as_ptr());
        self.keep((self.z.Z3_mk_const)(self.ctx, y, s))
    }
    unsafe fn bvop(&self, o: Op, x: P, y: P) -> P {
        let z = &self.z;
        let c = self.ctx;
        match o {
            Op::Add => (z.Z3_mk_bvadd)(c, x, y),
            Op::Sub => (z.Z3_mk_bvsub)(c, x, y),
            Op::Mul => (z.Z3_mk_bvmul)(c, x, y),
            Op::UDiv => (z.Z3_mk_bvudiv)(c, x, y),
            Op::SDiv => (z.Z3_mk_bvsdiv)(c, x, y),
            Op::URem => (z.Z3_mk_bvurem)(c, x, y),
            Op::SRem => (z.Z3_mk_bvsrem)(c, x, y),
            Op::And => (z.Z3_mk_bvand)(c, x, y),
            Op::Or => (z.Z3_mk_bvor)(c, x, y),
            Op::Xor => (z.Z3_mk_bvxor)(c, x, y),
            Op::Shl => (z.Z3_mk_bvshl)(c, x, y),
            Op::LShr => (z.Z3_mk_bvlshr)(c, x, y),
            Op::AShr => (z.Z3_mk_bvashr)(c, x, y),
            _ => unreachable!("{:?}", o),
        }
    }
    fn lit(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(&p) = self.proxy.get(&e) {
            return p;
        }
        self.tr(cx, e);
        unsafe {
            let c = self.ctx;
            let b = (self.z.Z3_mk_bool_sort)(c);
            let t = CString::new(format!("p{e}")).unwrap();
            let y = (self.z.Z3_mk_string_symbol)(c, t.as_ptr());
            let p = self.keep((self.z.Z3_mk_const)(c, y, b));
            let imp = self.keep((self.z.Z3_mk_implies)(c, p, self.bl[e as usize]));
            (self.z.Z3_solver_assert)(c, self.solver, imp);
            self.proxy.insert(e, p);
            p
        }
    }
    /// Satisfiability of the conjunction; on Sat the values of the symbols occurring in it.
    pub fn check(&mut self, cx: &mut Ctx, es: &[E]) -> (Res, Option<Rc<Vec<(u32, u8)>>>) {
        self.check_with(cx, es, false)
    }
    pub fn check_with(&mut self, cx: &mut Ctx, es: &[E], fresh: bool) -> (Res, Option<Rc<Vec<(u32, u8)>>>) {
        let mut key: Vec<E> = es.to_vec();
        key.sort_unstable();
        key.dedup();
        if let (Some(r), false) = (self.cache.get(&key), fresh) {
            self.st.cache_hits += 1;
            return match r {
                Some(m) => (Res::Sat, Some(m.clone())),
                None => (Res::Unsat, None),
            };
        }
        if stopped() {
            return (Res::Unknown, None);
        }
        let t0 = Instant::now();
        if fresh || self.since_reset >= self.reset_every {
            self.new_solver();
        }
        self.since_reset = if fresh { self.reset_every } else { self.since_reset + 1 };
        let mut lits: Vec<P> = vec![];
        if fresh || self.reset_every == 1 {
            for &e in &key {
                self.tr(cx, e);
                unsafe { (self.z.Z3_solver_assert)(self.ctx, self.solver, self.bl[e as usize]) };
            }
        } else {
            lits = key.iter().map(|&e| self.lit(cx, e)).collect();
        }
        let r = unsafe {
            (self.z.Z3_solver_check_assumptions)(self.ctx, self.solver, lits.len() as c_uint, lits.as_ptr())
        };
        self.st.queries += 1;
        let mut set = 0;
        for &e in &key {
            set = cx.set_union(set, cx.ss[e as usize]);
        }
        let out = match r {
            1 => {
                self.st.sat += 1;
                let syms = cx.set_syms(set);
                let mut vals = vec![];
                unsafe {
                    let c = self.ctx;
                    let m = (self.z.Z3_solver_get_model)(c, self.solver);
                    (self.z.Z3_model_inc_ref)(c, m);
                    for s in syms {
                        let e = cx.sym(s);
                        self.tr(cx, e);
                        let mut o: P = std::ptr::null_mut();
                        (self.z.Z3_model_eval)(c, m, self.bv[e as usize], true, &mut o);
                        let mut v = 0u64;
                        (self.z.Z3_get_numeral_uint64)(c, o, &mut v);
                        vals.push((s, v as u8));
                    }
                    (self.z.Z3_model_dec_ref)(c, m);
                }
                (Res::Sat, Some(Rc::new(vals)))
            }
            -1 => {
                self.st.unsat += 1;
                (Res::Unsat, None)
            }
            _ => {
                self.st.unknown += 1;
                (Res::Unknown, None)
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.st.time_s += dt;
        if dt > self.st.max_s {
            self.st.max_s = dt;
        }
        if self.dump_every > 0 && self.st.queries % self.dump_every == 0 && out.0 != Res::Unknown {
            self.dump(&key, out.0);
        }
        if out.0 != Res::Unknown {
            self.cache.insert(key, out.1.clone());
        }
        out
    }
    fn dump(&mut self, key: &[E], r: Res) {
        let Some(dir) = self.dump_dir.clone() else { return };
        unsafe {
            let mut asts = self.axioms.clone();
            asts.extend(key.iter().map(|&e| self.bl[e as usize]));
            let n = asts.len();
            let st = if r == Res::Sat { c"sat" } else { c"unsat" };
            let s = (self.z.Z3_benchmark_to_smtlib_string)(
                self.ctx,
                c"q".as_ptr(),
                c"QF_BV".as_ptr(),
                st.as_ptr(),
                c"".as_ptr(),
                (n - 1) as c_uint,
                asts.as_ptr(),
                asts[n - 1],
            );
            let txt = CStr::from_ptr(s).to_string_lossy().into_owned();
            let name = format!("{dir}/q-{}-{}.smt2", self.tid, self.st.queries);
            let _ = std::fs::write(name, txt);
        }
    }
}
