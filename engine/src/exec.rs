//! Symbolic executor over the compact IR: DFS over paths, Z3 decides every branch that is not implied.
use crate::expr::*;
use crate::llvm::*;
use crate::solver::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;


// ------------------------------------------------------------------ function kinds
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Body,
    Unknown,
    Panic,
    Abort,
    Fmt,
    Nop,
    Sym,
    Choose,
    Split,
    Assume,
    Check,
    Cover,
    Out,
    Alloc,
    Free,
    Realloc,
    HeapLive,
    HeapPeak,
    HeapMax,
    HeapReset,
    AllowPanic,
    Symbolic,
    Same,
    Malloc,
    Calloc,
    CRealloc,
    CFree,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Memcpy,
    Memmove,
    Memset,
    UAddO,
    SAddO,
    USubO,
    SSubO,
    UMulO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UMax,
    UMin,
    SMax,
    SMin,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Expect,
    IsConstant,
    Ptrmask,
    Threadlocal,
    UCmp,
    SCmp,
    ReduceAnd,
    ReduceOr,
    ReduceAdd,
    ReduceXor,
    ReduceUMax,
    ReduceUMin,
    LoadRelative,
    Zero,
}

pub fn classify(f: &Func) -> K {
    let n = f.name.as_str();
    if f.decl {
        if let Some(r) = n.strip_prefix("llvm.") {
            let b = |s: &str| r.starts_with(s);
            return if b("memcpy.") {
                K::Memcpy
            } else if b("memmove.") {
                K::Memmove
            } else if b("memset.") {
                K::Memset
            } else if b("uadd.with") {
                K::UAddO
            } else if b("sadd.with") {
                K::SAddO
            } else if b("usub.with") {
                K::USubO
            } else if b("ssub.with") {
                K::SSubO
            } else if b("umul.with") {
                K::UMulO
            } else if b("smul.with") {
                K::SMulO
            } else if b("uadd.sat") {
                K::UAddSat
            } else if b("usub.sat") {
                K::USubSat
            } else if b("sadd.sat") {
                K::SAddSat
            } else if b("ssub.sat") {
                K::SSubSat
            } else if b("umax.") {
                K::UMax
            } else if b("umin.") {
                K::UMin
            } else if b("smax.") {
                K::SMax
            } else if b("smin.") {
                K::SMin
            } else if b("abs.") {
                K::Abs
            } else if b("ctlz.") {
                K::Ctlz
            } else if b("cttz.") {
                K::Cttz
            } else if b("ctpop.") {
                K::Ctpop
            } else if b("bswap.") {
                K::Bswap
            } else if b("bitreverse.") {
                K::Bitreverse
            } else if b("fshl.") {
                K::Fshl
            } else if b("fshr.") {
                K::Fshr
            } else if b("expect.") {
                K::Expect
            } else if b("is.constant") {
                K::IsConstant
            } else if b("ptrmask") {
                K::Ptrmask
            } else if b("threadlocal") {
                K::Threadlocal
            } else if b("ucmp.") {
                K::UCmp
            } else if b("scmp.") {
                K::SCmp
            } else if b("vector.reduce.and") {
                K::ReduceAnd
            } else if b("vector.reduce.or") {
                K::ReduceOr
            } else if b("vector.reduce.xor") {
                K::ReduceXor
            } else if b("vector.reduce.add") {
                K::ReduceAdd
            } else if b("vector.reduce.umax") {
                K::ReduceUMax
            } else if b("vector.reduce.umin") {
                K::ReduceUMin
            } else if b("load.relative") {
                K::LoadRelative
            } else if b("trap") || b("ubsantrap") || b("debugtrap") {
                K::Abort
            } else if b("prefetch") || b("invariant.") || b("launder.") || b("sideeffect") || b("fake.use") {
                K::Nop
            } else {
                K::Unknown
            };
        }
        return match n {
            "sx_sym" => K::Sym,
            "sx_choose" => K::Choose,
            "sx_split" => K::Split,
            "sx_assume" => K::Assume,
            "sx_check" => K::Check,
            "sx_cover" => K::Cover,
            "sx_out" => K::Out,
            "sx_alloc" => K::Alloc,
            "sx_free" => K::Free,
            "sx_realloc" => K::Realloc,
            "sx_heap_live" => K::HeapLive,
            "sx_heap_peak" => K::HeapPeak,
            "sx_heap_max" => K::HeapMax,
            "sx_heap_reset" => K::HeapReset,
            "sx_allow_panic" => K::AllowPanic,
            "sx_symbolic" => K::Symbolic,
            "sx_same" => K::Same,
            "malloc" => K::Malloc,
            "calloc" => K::Calloc,
            "realloc" => K::CRealloc,
            "free" => K::CFree,
            "posix_memalign" => K::PosixMemalign,
            "memcmp" => K::Memcmp,
            "bcmp" => K::Bcmp,
            "strlen" => K::Strlen,
            "memcpy" => K::Memcpy,
            "memmove" => K::Memmove,
            "memset" => K::Memset,
            "abort" => K::Abort,
            "__rust_no_alloc_shim_is_unstable_v2" => K::Nop,
            _ if n.ends_with("__rust_no_alloc_shim_is_unstable_v2") => K::Nop,
            _ => K::Unknown,
        };
    }
    if n == "memcmp" {
        return K::Memcmp;
    }
    if n == "bcmp" {
        return K::Bcmp;
    }
    if n.contains("4core9panicking") && !n.contains("fmt") && !n.contains("4core9panicking4Assert") {
        return K::Panic;
    }
    if n.contains("4core9panicking9panic_fmt") || n.contains("4core9panicking18panic_nounwind_fmt") {
        return K::Panic;
    }
    if n.contains("rust_begin_unwind") || n.contains("20rust_panic_with_hook") || n.contains("10rust_panic") {
        return K::Panic;
    }
    if n.contains("18handle_alloc_error") || n.contains("7process5abort") || n.contains("14abort_internal") {
        return K::Abort;
    }
    if n.contains("5alloc3fmt6format12format_inner") {
        return K::Fmt;
    }
    K::Body
}

// ------------------------------------------------------------------ state
#[derive(Clone)]
pub struct Obj {
    pub data: Arc<Vec<u32>>,
    pub size: u64,
    pub kind: u8, // 0 global const, 1 global, 2 stack, 3 heap
    pub align: u64,
}
type Chunk = Vec<Option<Obj>>;
const CH: usize = 64;

#[derive(Clone)]
pub struct Frame {
    f: u32,
    blk: u32,
    ip: u32,
    regs: Vec<V>,
    allocas: Vec<u32>,
    dst: u32,
}

#[derive(Clone, Debug)]
pub enum Draw {
    Choose(u64),
    Sym(u32, u32),
}

#[derive(Clone)]
pub struct State {
    top: Frame,
    stack: Vec<Rc<Frame>>,
    chunks: Vec<Rc<Chunk>>,
    nobj: u32,
    pc: Vec<E>,
    model: Rc<Vec<u8>>,
    known: Rc<HashMap<u32, u8>>,
    kset: u32,
    kver: u32,
    eqs: Rc<HashMap<E, u128>>,
    nsym: u32,
    draws: Vec<Draw>,
    outs: Rc<Vec<Vec<u32>>>,
    covers: Rc<Vec<u32>>,
    live: u64,
    peak: u64,
    maxreq: u64,
    allow_panic: bool,
    steps: u64,
    split_pos: usize,
    depth: u32,
}

pub enum Stop {
    /// concretise this expression, then re-execute the instruction
    Conc(E),
    /// branch on this boolean, then re-execute
    Fork(E),
    /// continue with several alternatives of the current instruction (choose)
    Choose(u64),
    Split(u64),
    Viol(&'static str, String),
    Panicked(String),
    Done,
    Kill,
    Bad(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub draws: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub jobs: u64,
    pub paths: u64,
    pub killed: u64,
    pub panicked: u64,
    pub steps: u64,
    pub sym_branches: u64,
    pub forks: u64,
    pub merges: u64,
    pub fork_sites: HashMap<String, u64>,
    pub concs: u64,
    pub checks_trivial: u64,
    pub checks_solved: u64,
    pub mem_checks: u64,
    pub incomplete: Vec<String>,
    pub more_incomplete: u64,
    pub cut: std::collections::BTreeMap<String, u64>,
    pub max_depth: u32,
    pub max_syms: u32,
    pub covers: HashMap<u32, u64>,
}

#[derive(Clone)]
pub struct Cfg {
    pub max_steps: u64,
    pub max_alloc: u64,
    pub samples_per_job: usize,
    pub max_viol: usize,
    /// violation kinds that end a path without a report (not part of the property being decided)
    pub ignore: Vec<String>,
    pub merge: bool,
}

pub struct Exec<'p> {
    pub p: &'p Prog,
    pub kinds: &'p [K],
    pub c: Ctx,
    pub s: Solver,
    pub st: Stats,
    pub hit: Vec<bool>,
    pub cfg: Cfg,
    pub viols: Vec<Violation>,
    pub samples: Vec<String>,
    pub new_jobs: Vec<Vec<u64>>,
    prefix: Vec<u64>,
    work: Vec<State>,
    kver_next: u32,
    memo_ver: u32,
    memo: HashMap<E, E>,
    job_paths: u64,
    fmt_stub: Option<u32>,
    recent: Vec<Rc<Vec<u8>>>,
    base: State,
    pub profile: bool,
    joins: HashMap<(u32, u32), Option<u32>>,
}

fn fnv(h: &mut u64, b: u8) {
    *h ^= b as u64;
    *h = h.wrapping_mul(0x100000001b3);
}

impl<'p> Exec<'p> {
    pub fn new(p: &'p Prog, kinds: &'p [K], s: Solver, cfg: Cfg) -> Self {
        let mut chunks: Vec<Rc<Chunk>> = vec![];
        let mut cur: Chunk = vec![];
        for g in &p.globals {
            cur.push(Some(Obj { data: g.data.clone(), size: g.size, kind: if g.constant { 0 } else { 1 }, align: 1 << 31 }));
            if cur.len() == CH {
                chunks.push(Rc::new(std::mem::take(&mut cur)));
            }
        }
        if !cur.is_empty() {
            chunks.push(Rc::new(cur));
        }
        let base = State {
            top: Frame { f: 0, blk: 0, ip: 0, regs: vec![], allocas: vec![], dst: NONE },
            stack: vec![],
            chunks,
            nobj: p.globals.len() as u32,
            pc: vec![],
            model: Rc::new(vec![]),
            known: Rc::new(HashMap::new()),
            kset: 0,
            kver: 0,
            eqs: Rc::new(HashMap::new()),
            nsym: 0,
            draws: vec![],
            outs: Rc::new(vec![]),
            covers: Rc::new(vec![]),
            live: 0,
            peak: 0,
            maxreq: 0,
            allow_panic: false,
            steps: 0,
            split_pos: 0,
            depth: 0,
        };
        let fmt_stub = p.fidx.get("sx_empty_string").copied();
        Exec {
            p,
            kinds,
            c: Ctx::new(),
            s,
            st: Stats::default(),
            hit: vec![false; p.lines.len()],
            cfg,
            viols: vec![],
            samples: vec![],
            new_jobs: vec![],
            prefix: vec![],
            work: vec![],
            kver_next: 1,
            memo_ver: 0,
            memo: HashMap::new(),
            job_paths: 0,
            fmt_stub,
            recent: vec![],
            base,
            profile: std::env::var("SX_PROFILE").is_ok(),
            joins: HashMap::new(),
        }
    }

    // ---------------------------------------------------------------- job driver
    pub fn run_job(&mut self, entry: u32, prefix: Vec<u64>) {
        if self.c.nodes.len() > 1_500_000 {
            self.c = Ctx::new();
            self.s.reset();
            self.memo.clear();
            self.memo_ver = 0;
        }
        self.recent.clear();
        self.st.jobs += 1;
        self.job_paths = 0;
        self.prefix = prefix;
        let mut st = self.base.clone();
        let f = &self.p.funcs[entry as usize];
        st.top = Frame { f: entry, blk: 0, ip: 0, regs: vec![V::C(0); f.nregs as usize], allocas: vec![], dst: NONE };
        self.work.clear();
        self.work.push(st);
        while let Some(s) = self.work.pop() {
            self.run_state(s);
            if crate::solver::stopped() {
                if !self.work.is_empty() {
                    self.st.incomplete.push(format!("budget: {} states left in job {:?}", self.work.len(), self.prefix));
                }
                return;
            }
            if self.viols.len() >= self.cfg.max_viol {
                return;
            }
        }
    }

    fn run_state(&mut self, mut st: State) {
        let mut n = 0u32;
        loop {
            n += 1;
            if n & 0xfff == 0 && crate::solver::stopped() {
                self.st.incomplete.push(format!("budget: in job {:?}", self.prefix));
                return;
            }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Kill) => {
                    self.st.killed += 1;
                    return;
                }
                Err(Stop::Done) => {
                    self.finish(&st, "ok");
                    return;
                }
                Err(Stop::Conc(e)) => {
                    self.st.concs += 1;
                    let e = self.simp(&st, e);
                    if let Some(_) = self.c.is_const(e) {
                        self.st.incomplete.push("conc on constant".into());
                        return;
                    }
                    let v = self.c.eval(e, &st.model.clone());
                    let w = self.c.w(e);
                    let k = self.c.c(w, v);
                    let eq = self.c.bin(Op::Eq, e, k);
                    if let Err(s) = self.fork_on(&mut st, eq) {
                        self.bad(s);
                        return;
                    }
                    // the model side is the one continued here
                    Rc::make_mut(&mut st.eqs).insert(e, v);
                }
                Err(Stop::Fork(c)) => {
                    if let Err(s) = self.fork_on(&mut st, c) {
                        self.bad(s);
                        return;
                    }
                }
                Err(Stop::Choose(n)) => {
                    for i in (1..n).rev() {
                        let mut o = st.clone();
                        o.draws.push(Draw::Choose(i));
                        self.ret_int(&mut o, i as u128);
                        self.work.push(o);
                        self.st.forks += 1;
                    }
                    st.draws.push(Draw::Choose(0));
                    self.ret_int(&mut st, 0);
                }
                Err(Stop::Split(n)) => {
                    if st.split_pos < self.prefix.len() {
                        let v = self.prefix[st.split_pos];
                        st.split_pos += 1;
                        st.draws.push(Draw::Choose(v));
                        self.ret_int(&mut st, v as u128);
                    } else if n == 1 {
                        // keep prefix positions aligned
                        self.prefix.push(0);
                        st.split_pos += 1;
                        st.draws.push(Draw::Choose(0));
                        self.ret_int(&mut st, 0);
                    } else {
                        for i in 0..n {
                            let mut p = self.prefix.clone();
                            p.push(i);
                            self.new_jobs.push(p);
                        }
                        return;
                    }
                }
                Err(Stop::Viol(kind, msg)) => {
                    if self.cfg.ignore.iter().any(|k| k == kind) {
                        *self.st.cut.entry(kind.to_string()).or_insert(0) += 1;
                        return;
                    }
                    self.violation(&st, kind, msg);
                    return;
                }
                Err(Stop::Panicked(m)) => {
                    if st.allow_panic {
                        self.st.panicked += 1;
                        self.finish(&st, "panic");
                    } else {
                        self.violation(&st, "panic", m);
                    }
                    return;
                }
                Err(Stop::Bad(m)) => {
                    self.bad_at(&st, m);
                    return;
                }
            }
        }
    }
    fn bad(&mut self, s: Stop) {
        match s {
            Stop::Bad(m) => self.st.incomplete.push(m),
            Stop::Kill => self.st.killed += 1,
            _ => self.st.incomplete.push("unexpected stop".into()),
        }
    }
    fn bad_at(&mut self, st: &State, m: String) {
        let t = self.stack_trace(st);
        if self.st.incomplete.len() < 50 {
            self.st.incomplete.push(format!("{m} @ {}", t.first().cloned().unwrap_or_default()));
        } else {
            self.st.more_incomplete += 1;
        }
    }
    /// complete a call-like instruction with an integer result
    fn ret_int(&mut self, st: &mut State, v: u128) {
        let p = self.p;
        let t = &mut st.top;
        let inst = &p.funcs[t.f as usize].blocks[t.blk as usize].insts[t.ip as usize];
        if inst.dst != NONE {
            t.regs[inst.dst as usize] = V::C(v);
        }
        t.ip += 1;
    }

    pub fn stack_trace(&self, st: &State) -> Vec<String> {
        let mut o = vec![];
        let mut add = |f: &Frame| {
            let fu = &self.p.funcs[f.f as usize];
            let b = &fu.blocks[f.blk as usize];
            let mut l = 0;
            let mut ip = f.ip as usize;
            loop {
                if let Some(i) = b.insts.get(ip) {
                    if i.line != 0 {
                        l = i.line;
                        break;
                    }
                }
                if ip == 0 {
                    break;
                }
                ip -= 1;
            }
            let (file, line) = &self.p.lines[l as usize];
            o.push(format!("{} {}:{}", fu.name, file, line));
        };
        add(&st.top);
        for f in st.stack.iter().rev() {
            add(f);
        }
        o
    }
    fn draws_str(&self, st: &State, model: &Rc<Vec<u8>>) -> String {
        let mut s = String::new();
        for d in &st.draws {
            if !s.is_empty() {
                s.push(' ');
            }
            match d {
                Draw::Choose(v) => s.push_str(&format!("c{v}")),
                Draw::Sym(a, n) => {
                    s.push('s');
                    for i in *a..*a + *n {
                        s.push_str(&format!("{:02x}", model.get(i as usize).copied().unwrap_or(0)));
                    }
                }
            }
        }
        s
    }
    fn violation(&mut self, st: &State, kind: &str, msg: String) {
        let trace = self.stack_trace(st);
        let draws = self.draws_str(st, &st.model);
        self.add_viol(kind, msg, trace, draws);
        self.st.paths += 1;
    }
    fn add_viol(&mut self, kind: &str, msg: String, trace: Vec<String>, draws: String) {
        // keep at most two counterexamples per (kind, message, innermost location)
        let same = self
            .viols
            .iter()
            .filter(|v| v.kind == kind && v.msg == msg && v.trace.first() == trace.first())
            .count();
        if same < 2 {
            self.viols.push(Violation { kind: kind.into(), msg, trace, draws });
        }
    }
    fn finish(&mut self, st: &State, how: &str) {
        self.st.paths += 1;
        self.job_paths += 1;
        self.st.max_depth = self.st.max_depth.max(st.depth);
        self.st.max_syms = self.st.max_syms.max(st.nsym);
        for &k in st.covers.iter() {
            *self.st.covers.entry(k).or_insert(0) += 1;
        }
        let n = self.job_paths;
        if n as usize <= self.cfg.samples_per_job || n.is_power_of_two() {
            let model = st.model.clone();
            let mut h = 0xcbf29ce484222325u64;
            for o in st.outs.iter() {
                for &b in o {
                    let v = if b < 256 { b as u8 } else { self.c.eval(b - 256, &model) as u8 };
                    fnv(&mut h, v);
                }
                fnv(&mut h, 0xff);
                fnv(&mut h, (o.len() & 255) as u8);
            }
            let cov: Vec<String> = st.covers.iter().map(|c| c.to_string()).collect();
            let s = format!("{how}|{h:016x}|{}|{}", cov.join(","), self.draws_str(st, &model));
            self.samples.push(s);
        }
    }

    // ---------------------------------------------------------------- constraints
    fn simp_known(&mut self, st: &State, e: E) -> E {
        let mut e = e;
        if st.kset != 0 && self.c.set_intersects(self.c.ss[e as usize], st.kset) {
            if self.memo_ver != st.kver {
                self.memo.clear();
                self.memo_ver = st.kver;
            }
            let mut m = std::mem::take(&mut self.memo);
            e = self.c.subst(e, &st.known, st.kset, &mut m);
            self.memo = m;
        }
        e
    }
    fn simp(&mut self, st: &State, e: E) -> E {
        let mut e = self.simp_known(st, e);
        if !st.eqs.is_empty() {
            loop {
                let n = self.c.n(e);
                if n.op == Op::Const {
                    return e;
                }
                if let Some(&k) = st.eqs.get(&e) {
                    let w = self.c.w(e);
                    return self.c.c(w, k);
                }
                if n.op == Op::Xor && n.b == Ctx::TRUE {
                    if let Some(&k) = st.eqs.get(&n.a) {
                        return self.c.c(1, k ^ 1);
                    }
                }
                if n.op == Op::Ite {
                    // decided conditions select their branch
                    let c = self.simp(st, n.a);
                    match self.c.is_const(c) {
                        Some(1) => e = n.b,
                        Some(_) => e = n.c,
                        None => return e,
                    }
                    continue;
                }
                return e;
            }
        }
        e
    }
    fn slice(&mut self, st: &State, e: E) -> Vec<E> {
        let mut set = self.c.ss[e as usize];
        let mut out = vec![e];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for i in (0..st.pc.len()).rev() {
                if used[i] {
                    continue;
                }
                let s = self.c.ss[st.pc[i] as usize];
                if self.c.set_intersects(s, set) {
                    used[i] = true;
                    out.push(st.pc[i]);
                    let n = self.c.set_union(set, s);
                    if n != set {
                        set = n;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// can `e` hold on this path? (e already simplified, width 1). Returns a full model if so.
    fn sat(&mut self, st: &State, e: E) -> R<Option<Rc<Vec<u8>>>> {
        if let Some(k) = self.c.is_const(e) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        if self.c.eval(e, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let sl = self.slice(st, e);
        let (r, vals) = self.s.check(&mut self.c, &sl);
        match r {
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Bad("solver: unknown".into())),
            Res::Sat => {
                let mut m = (*st.model).clone();
                m.resize(st.nsym as usize, 0);
                for &(s, v) in vals.unwrap().iter() {
                    m[s as usize] = v;
                }
                for (&s, &v) in st.known.iter() {
                    m[s as usize] = v;
                }
                let m = Rc::new(m);
                for &x in &sl {
                    if self.c.eval(x, &m) != 1 {
                        if std::env::var("SX_DEBUG").is_ok() {
                            eprintln!("MISMATCH {} model={:?} known={:?}", self.c.smt(x), m, st.known);
                            for &y in &sl {
                                eprintln!("   {}", self.c.smt(y));
                            }
                        }
                        return Err(Stop::Bad(format!("model does not satisfy {}", self.c.smt(x))));
                    }
                }
                Ok(Some(m))
            }
        }
    }
    fn learn(&mut self, e: E, k: u128, out: &mut Vec<(u32, u8)>) {
        let n = self.c.n(e);
        let w = n.w as u32;
        match n.op {
            Op::Sym => out.push((n.k as u32, k as u8)),
            Op::Concat => {
                let wb = self.c.w(n.b);
                self.learn(n.a, k >> wb, out);
                self.learn(n.b, k & mask(wb), out);
            }
            Op::Add | Op::Xor => {
                if let Some(c) = self.c.is_const(n.b) {
                    let v = if n.op == Op::Add { k.wrapping_sub(c) & mask(w) } else { k ^ c };
                    self.learn(n.a, v, out);
                }
            }
            _ => {}
        }
    }
    /// add a constraint known to be consistent with st.model
    fn add(&mut self, st: &mut State, e: E) {
        let e = self.simp_known(st, e);
        if self.c.is_const(e).is_some() {
            return;
        }
        let n = self.c.n(e);
        if n.op == Op::And {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        let mut facts: Vec<(E, u128)> = vec![];
        let mut known: Vec<(u32, u8)> = vec![];
        if n.op == Op::Eq {
            if let Some(k) = self.c.is_const(n.b) {
                facts.push((n.a, k));
                self.learn(n.a, k, &mut known);
            }
        }
        if n.op == Op::Xor && n.b == Ctx::TRUE {
            facts.push((n.a, 0));
        } else {
            facts.push((e, 1));
        }
        let eqs = Rc::make_mut(&mut st.eqs);
        for (x, k) in facts {
            eqs.insert(x, k);
        }
        st.pc.push(e);
        known.retain(|(s, _)| !st.known.contains_key(s));
        if !known.is_empty() {
            let km = Rc::make_mut(&mut st.known);
            for (s, v) in known {
                km.insert(s, v);
                st.kset = self.c.set_add(st.kset, s);
            }
            st.kver = self.kver_next;
            self.kver_next += 1;
            // re-simplify the path condition under the new facts
            let pc = std::mem::take(&mut st.pc);
            self.memo.clear();
            self.memo_ver = st.kver;
            let mut memo = std::mem::take(&mut self.memo);
            let mut again = vec![];
            for x in pc {
                let y = self.c.subst(x, &st.known, st.kset, &mut memo);
                if y == Ctx::TRUE {
                    continue;
                }
                if y != x {
                    again.push(y);
                } else {
                    st.pc.push(x);
                }
            }
            self.memo = memo;
            for y in again {
                self.add(st, y);
            }
        }
    }
    /// decide a boolean; on both feasible the false-side (w.r.t. the model) is queued with the instruction to re-execute
    fn fork_on(&mut self, st: &mut State, cond: E) -> R<()> {
        let c = self.simp(st, cond);
        if let Some(k) = self.c.is_const(c) {
            Rc::make_mut(&mut st.eqs).insert(cond, k);
            return Ok(());
        }
        let taken = self.c.eval(c, &st.model) == 1;
        let nc = self.c.not1(c);
        let (here, other) = if taken { (c, nc) } else { (nc, c) };
        self.st.sym_branches += 1;
        if let Some(m) = self.sat(st, other)? {
            let mut o = st.clone();
            o.model = m;
            o.depth += 1;
            self.add(&mut o, other);
            self.work.push(o);
            self.st.forks += 1;
            if self.profile {
                let t = self.stack_trace(st).into_iter().take(4).collect::<Vec<_>>().join(" < ");
                *self.st.fork_sites.entry(t).or_insert(0) += 1;
            }
            st.depth += 1;
            self.add(st, here);
        } else {
            // implied: remember it syntactically only
            self.note(st, here);
        }
        let eqs = Rc::make_mut(&mut st.eqs);
        eqs.insert(c, taken as u128);
        eqs.insert(cond, taken as u128);
        Ok(())
    }
    fn note(&mut self, st: &mut State, e: E) {
        // an implied fact need not be asserted, but facts of the form x == k are worth learning
        let n = self.c.n(e);
        let isk = n.op == Op::Eq && self.c.is_const(n.b).is_some();
        if isk {
            self.add(st, e);
        } else {
            let eqs = Rc::make_mut(&mut st.eqs);
            if n.op == Op::Xor && n.b == Ctx::TRUE {
                eqs.insert(n.a, 0);
            } else {
                eqs.insert(e, 1);
            }
        }
    }
    /// concrete value of a V, or ask for concretisation
    fn conc(&mut self, st: &State, v: &V) -> R<u128> {
        match v {
            V::C(k) => Ok(*k),
            V::S(e) => {
                let e = self.simp(st, *e);
                match self.c.is_const(e) {
                    Some(k) => Ok(k),
                    None => Err(Stop::Conc(e)),
                }
            }
            V::A(_) => Err(Stop::Bad("conc of aggregate".into())),
        }
    }
    #[inline]
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(k) => self.c.c(w, *k),
            V::S(e) => *e,
            V::A(_) => panic!("scalar expected"),
        }
    }
    #[inline]
    fn v(&self, e: E) -> V {
        match self.c.is_const(e) {
            Some(k) => V::C(k),
            None => V::S(e),
        }
    }

    // ---------------------------------------------------------------- memory
    fn obj<'a>(&self, st: &'a State, id: u64) -> Option<&'a Obj> {
        let i = id.checked_sub(GLOBAL_ID)? as usize;
        st.chunks.get(i / CH)?.get(i % CH)?.as_ref()
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: u64) -> Option<&'a mut Obj> {
        let i = id.checked_sub(GLOBAL_ID)? as usize;
        Rc::make_mut(st.chunks.get_mut(i / CH)?).get_mut(i % CH)?.as_mut()
    }
    fn new_obj(&mut self, st: &mut State, size: u64, kind: u8, align: u64) -> u64 {
        let i = st.nobj as usize;
        st.nobj += 1;
        let o = Obj { data: Arc::new(vec![0xA5; size as usize]), size, kind, align };
        if i % CH == 0 {
            st.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        let c = Rc::make_mut(&mut st.chunks[i / CH]);
        c.push(Some(o));
        (GLOBAL_ID + i as u64) << 32
    }
    fn del_obj(&mut self, st: &mut State, id: u64) {
        let i = (id - GLOBAL_ID) as usize;
        Rc::make_mut(&mut st.chunks[i / CH])[i % CH] = None;
    }
    fn check_range(&mut self, st: &State, a: u64, n: u64, write: bool) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.st.mem_checks += 1;
        match self.obj(st, a >> 32) {
            Some(o) => {
                let off = a & 0xffff_ffff;
                if off + n > o.size {
                    return Err(Stop::Viol("memory", format!("out-of-bounds {} of {n} bytes at offset {off} of an object of {} bytes", if write { "write" } else { "read" }, o.size)));
                }
                if write && o.kind == 0 {
                    return Err(Stop::Viol("memory", "write to constant".into()));
                }
                Ok(())
            }
            None => Err(Stop::Viol("memory", format!("access to invalid address {a:#x} ({n} bytes)"))),
        }
    }
    fn read_bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<u32>> {
        self.check_range(st, a, n, false)?;
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.obj(st, a >> 32).unwrap();
        let off = (a & 0xffff_ffff) as usize;
        Ok(o.data[off..off + n as usize].to_vec())
    }
    fn write_bytes(&mut self, st: &mut State, a: u64, b: &[u32]) -> R<()> {
        self.check_range(st, a, b.len() as u64, true)?;
        if b.is_empty() {
            return Ok(());
        }
        let o = self.obj_mut(st, a >> 32).unwrap();
        let off = (a & 0xffff_ffff) as usize;
        Arc::make_mut(&mut o.data)[off..off + b.len()].copy_from_slice(b);
        Ok(())
    }
    fn byte_e(&mut self, st: &State, b: u32) -> E {
        if b < 256 {
            self.c.c(8, b as u128)
        } else {
            self.simp(st, b - 256)
        }
    }
    fn e_byte(&self, e: E) -> u32 {
        match self.c.is_const(e) {
            Some(k) => k as u32,
            None => e + 256,
        }
    }
    /// little-endian bytes -> integer of width w
    fn int_of(&mut self, st: &State, b: &[u32], w: u32) -> V {
        if b.iter().all(|x| *x < 256) {
            let mut k = 0u128;
            for (i, x) in b.iter().enumerate() {
                k |= (*x as u128) << (8 * i);
            }
            return V::C(k & mask(w));
        }
        let mut e = self.byte_e(st, b[b.len() - 1]);
        for i in (0..b.len() - 1).rev() {
            let l = self.byte_e(st, b[i]);
            e = self.c.concat(e, l);
        }
        if self.c.w(e) > w {
            e = self.c.extract(e, 0, w);
        }
        let e = self.simp(st, e);
        self.v(e)
    }
    fn decode_ty(&mut self, st: &State, b: &[u32], t: u32) -> R<V> {
        let p = self.p;
        let ti = &p.tys[t as usize];
        Ok(match &ti.ty {
            Ty::Int(w) if *w > 128 => V::A(Arc::new(
                b[..(*w as usize + 7) / 8].iter().map(|x| if *x < 256 { V::C(*x as u128) } else { V::S(*x - 256) }).collect(),
            )),
            Ty::Int(w) => self.int_of(st, &b[..(*w as usize + 7) / 8], *w),
            Ty::Ptr => self.int_of(st, &b[..8], 64),
            Ty::Arr(et, n) | Ty::Vect(et, n) => {
                let s = p.tys[*et as usize].size as usize;
                if let (Ty::Vect(..), Ty::Int(w)) = (&ti.ty, &p.tys[*et as usize].ty) {
                    if *w % 8 != 0 {
                        return Err(Stop::Bad("load of bit vector".into()));
                    }
                }
                let mut o = Vec::with_capacity(*n as usize);
                for i in 0..*n as usize {
                    o.push(self.decode_ty(st, &b[i * s..], *et)?);
                }
                V::A(Arc::new(o))
            }
            Ty::Struct(es, os) => {
                let mut o = Vec::with_capacity(es.len());
                for i in 0..es.len() {
                    o.push(self.decode_ty(st, &b[os[i] as usize..], es[i])?);
                }
                V::A(Arc::new(o))
            }
            _ => return Err(Stop::Bad("load type".into())),
        })
    }
    fn encode_ty(&mut self, v: &V, t: u32, out: &mut [u32]) -> R<()> {
        let p = self.p;
        let ti = &p.tys[t as usize];
        match &ti.ty {
            Ty::Int(w) if *w > 128 => {
                if let V::A(xs) = v {
                    for (i, x) in xs.iter().enumerate() {
                        out[i] = match x {
                            V::C(k) => *k as u32,
                            V::S(e) => self.e_byte(*e),
                            _ => return Err(Stop::Bad("wide store".into())),
                        };
                    }
                } else {
                    return Err(Stop::Bad("wide store".into()));
                }
            }
            Ty::Int(_) | Ty::Ptr => {
                let w = if let Ty::Int(w) = ti.ty { w } else { 64 };
                let n = (w as usize + 7) / 8;
                match v {
                    V::C(k) => {
                        for i in 0..n {
                            out[i] = ((k >> (8 * i)) & 255) as u32;
                        }
                    }
                    V::S(e) => {
                        let z = self.c.zext(*e, n as u32 * 8);
                        for i in 0..n {
                            let x = self.c.extract(z, i as u32 * 8, 8);
                            out[i] = self.e_byte(x);
                        }
                    }
                    _ => return Err(Stop::Bad("store value".into())),
                }
            }
            Ty::Arr(et, n) | Ty::Vect(et, n) => {
                let s = p.tys[*et as usize].size as usize;
                if let V::A(xs) = v {
                    if let (Ty::Vect(..), Ty::Int(w)) = (&ti.ty, &p.tys[*et as usize].ty) {
                        if *w % 8 != 0 {
                            return Err(Stop::Bad("store of bit vector".into()));
                        }
                    }
                    for i in 0..*n as usize {
                        self.encode_ty(&xs[i], *et, &mut out[i * s..])?;
                    }
                }
            }
            Ty::Struct(es, os) => {
                if let V::A(xs) = v {
                    for i in 0..es.len() {
                        self.encode_ty(&xs[i], es[i], &mut out[os[i] as usize..])?;
                    }
                }
            }
            _ => return Err(Stop::Bad("store type".into())),
        }
        Ok(())
    }
    fn store_size(&self, t: u32) -> u64 {
        match &self.p.tys[t as usize].ty {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.p.tys[t as usize].size,
        }
    }
    /// Resolve an address for an access of n bytes: either one concrete address or (base, offset expr, candidate offsets)
    fn resolve(&mut self, st: &mut State, a: &V, n: u64, write: bool) -> R<Addr> {
        let e = match a {
            V::C(k) => return Ok(Addr::C(*k as u64)),
            V::S(e) => self.simp(st, *e),
            V::A(_) => return Err(Stop::Bad("aggregate address".into())),
        };
        if let Some(k) = self.c.is_const(e) {
            return Ok(Addr::C(k as u64));
        }
        let nd = self.c.n(e);
        if nd.op == Op::Ite {
            // pointer select: decide the condition
            let c = self.simp(st, nd.a);
            if self.c.is_const(c).is_none() {
                return Err(Stop::Fork(c));
            }
        }
        // constant base + bounded index
        let (x, k) = if nd.op == Op::Add {
            match self.c.is_const(nd.b) {
                Some(k) => (nd.a, k as u64),
                None => (e, 0),
            }
        } else {
            (e, 0)
        };
        let cur = self.c.eval(e, &st.model) as u64;
        let id = cur >> 32;
        let (off, known_hi) = {
            let ub = self.c.umax(x, 8);
            if k >> 32 == id && ub + ((k & 0xffff_ffff) as u128) < (1 << 32) {
                let kk = self.c.c(64, (k & 0xffff_ffff) as u128);
                (self.c.bin(Op::Add, x, kk), true)
            } else {
                let b = self.c.c(64, ((id << 32) as u128).wrapping_neg());
                (self.c.bin(Op::Add, e, b), false)
            }
        };
        let size = match self.obj(st, id) {
            Some(o) => o.size,
            None => return Err(Stop::Conc(e)),
        };
        if size < n {
            return Err(Stop::Conc(e));
        }
        let max = size - n;
        // in bounds?
        if !(known_hi && self.c.umax(off, 8) <= max as u128) {
            let lim = self.c.c(64, max as u128);
            let oob = self.c.bin(Op::Ult, lim, off);
            let oob = self.simp(st, oob);
            if self.c.is_const(oob) != Some(0) {
                self.st.mem_checks += 1;
                let nin = self.c.not1(oob);
                if let Some(m) = self.sat(st, oob)? {
                    if self.c.eval(oob, &st.model) == 1 {
                        return Err(Stop::Conc(e));
                    }
                    // the out-of-bounds side becomes its own state; it is re-executed there with a concrete address
                    let mut o = st.clone();
                    o.model = m;
                    self.add(&mut o, oob);
                    self.work.push(o);
                    self.add(st, nin);
                    self.st.forks += 1;
                } else {
                    self.note(st, nin);
                }
            }
        }
        // candidate offsets
        let hi = (self.c.umax(off, 8).min(max as u128)) as u64;
        let g = self.granule(off);
        if hi / g <= 64 {
            let offs: Vec<u64> = (0..=hi / g).map(|i| i * g).filter(|o| *o <= max).collect();
            // offsets share the residue of their constant part only when g > 1 divides everything
            return Ok(Addr::S(id << 32, off, offs));
        }
        let _ = write;
        // enumerate with the solver, up to a limit
        let mut offs = vec![];
        let mut block: Vec<E> = vec![];
        loop {
            let mut cond = Ctx::TRUE;
            for &b in &block {
                cond = self.c.bin(Op::And, cond, b);
            }
            match self.sat(st, cond)? {
                None => break,
                Some(m) => {
                    let v = self.c.eval(off, &m) as u64;
                    if offs.len() >= 48 {
                        return Err(Stop::Conc(e));
                    }
                    offs.push(v);
                    let kv = self.c.c(64, v as u128);
                    let eq = self.c.bin(Op::Eq, off, kv);
                    block.push(self.c.not1(eq));
                }
            }
        }
        Ok(Addr::S(id << 32, off, offs))
    }
    /// power of two dividing every value of the expression (from constant-zero low bits)
    fn granule(&self, e: E) -> u64 {
        let n = self.c.n(e);
        match n.op {
            Op::Concat => {
                let wb = self.c.w(n.b);
                match self.c.is_const(n.b) {
                    Some(0) => 1u64 << wb.min(16),
                    Some(k) => 1 << k.trailing_zeros().min(16),
                    None => self.granule(n.b),
                }
            }
            Op::Add => self.granule(n.a).min(self.granule(n.b)),
            Op::Const => {
                if n.k == 0 {
                    1 << 16
                } else {
                    1 << n.k.trailing_zeros().min(16)
                }
            }
            Op::Mul => (self.granule(n.a).saturating_mul(self.granule(n.b))).min(1 << 16),
            _ => 1,
        }
    }
    fn load(&mut self, st: &mut State, a: &V, t: u32) -> R<V> {
        let n = self.store_size(t).max(self.p.tys[t as usize].size.min(self.store_size(t)));
        match self.resolve(st, a, n, false)? {
            Addr::C(a) => {
                let b = self.read_bytes(st, a, n)?;
                self.decode_ty(st, &b, t)
            }
            Addr::S(base, off, offs) => {
                let mut r: Option<V> = None;
                for &o in offs.iter().rev() {
                    let b = self.read_bytes(st, base + o, n)?;
                    let v = self.decode_ty(st, &b, t)?;
                    r = Some(match r {
                        None => v,
                        Some(prev) => {
                            let k = self.c.c(64, o as u128);
                            let c = self.c.bin(Op::Eq, off, k);
                            self.select(c, &v, &prev, t)?
                        }
                    });
                }
                r.ok_or(Stop::Kill)
            }
        }
    }
    fn store(&mut self, st: &mut State, a: &V, v: &V, t: u32) -> R<()> {
        let n = self.store_size(t);
        let mut b = vec![0u32; n as usize];
        // padding bytes inside aggregates keep their previous contents in LLVM; zero is as good
        self.encode_ty(v, t, &mut b)?;
        match self.resolve(st, a, n, true)? {
            Addr::C(a) => self.write_bytes(st, a, &b),
            Addr::S(base, off, offs) => {
                for &o in &offs {
                    let k = self.c.c(64, o as u128);
                    let c = self.c.bin(Op::Eq, off, k);
                    let old = self.read_bytes(st, base + o, n)?;
                    let mut nb = Vec::with_capacity(b.len());
                    for i in 0..b.len() {
                        let x = self.byte_e(st, b[i]);
                        let y = self.byte_e(st, old[i]);
                        let z = self.c.ite(c, x, y);
                        nb.push(self.e_byte(z));
                    }
                    self.write_bytes(st, base + o, &nb)?;
                }
                Ok(())
            }
        }
    }
    fn width(&self, t: u32) -> u32 {
        match &self.p.tys[t as usize].ty {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    fn select(&mut self, c: E, x: &V, y: &V, t: u32) -> R<V> {
        if let Some(k) = self.c.is_const(c) {
            return Ok(if k == 1 { x.clone() } else { y.clone() });
        }
        match (x, y) {
            (V::A(xs), V::A(ys)) => {
                let p = self.p;
                let mut o = vec![];
                for i in 0..xs.len() {
                    let et = match &p.tys[t as usize].ty {
                        Ty::Arr(e, _) | Ty::Vect(e, _) => *e,
                        Ty::Struct(es, _) => es[i],
                        Ty::Int(_) => NONE,
                        _ => return Err(Stop::Bad("select type".into())),
                    };
                    if et == NONE {
                        let (a, b) = (self.e(&xs[i], 8), self.e(&ys[i], 8));
                        let r = self.c.ite(c, a, b);
                        o.push(self.v(r));
                    } else {
                        o.push(self.select(c, &xs[i], &ys[i], et)?);
                    }
                }
                Ok(V::A(Arc::new(o)))
            }
            (V::A(_), _) | (_, V::A(_)) => Err(Stop::Bad("select".into())),
            _ => {
                let w = self.width(t);
                if w == 0 {
                    return Err(Stop::Bad("select width".into()));
                }
                let (a, b) = (self.e(x, w), self.e(y, w));
                let r = self.c.ite(c, a, b);
                Ok(self.v(r))
            }
        }
    }

    // ---------------------------------------------------------------- stepping
    #[inline]
    fn opd(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::K(v) => v.clone(),
            Opd::R(r) => st.top.regs[*r as usize].clone(),
        }
    }
    fn goto(&mut self, st: &mut State, to: u32) -> R<()> {
        let p = self.p;
        let f = &p.funcs[st.top.f as usize];
        let from = st.top.blk;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let ph = &b.phis[0];
                let o = ph.inc.iter().find(|x| x.0 == from).unwrap();
                let v = self.opd(st, &o.1);
                st.top.regs[ph.dst as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for ph in &b.phis {
                    let o = ph.inc.iter().find(|x| x.0 == from).unwrap();
                    vals.push(self.opd(st, &o.1));
                }
                for (ph, v) in b.phis.iter().zip(vals) {
                    st.top.regs[ph.dst as usize] = v;
                }
            }
        }
        st.top.blk = to;
        st.top.ip = 0;
        st.steps += 1;
        if st.steps > self.cfg.max_steps {
            return Err(Stop::Viol("nontermination", format!("more than {} basic blocks executed on one path", self.cfg.max_steps)));
        }
        Ok(())
    }
    /// boolean decision of a branch condition
    fn decide(&mut self, st: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(k) => Ok(*k & 1 == 1),
            V::S(e) => {
                let e = self.simp(st, *e);
                match self.c.is_const(e) {
                    Some(k) => Ok(k == 1),
                    None => Err(Stop::Fork(e)),
                }
            }
            V::A(_) => Err(Stop::Bad("branch on aggregate".into())),
        }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let p = self.p;
        let f = &p.funcs[st.top.f as usize];
        let blk = &f.blocks[st.top.blk as usize];
        // run to the end of the block
        loop {
            let inst = &blk.insts[st.top.ip as usize];
            if inst.line != 0 {
                self.hit[inst.line as usize] = true;
            }
            self.st.steps += 1;
            match &inst.i {
                I::Ret(v) => {
                    let v = v.as_ref().map(|o| self.opd(st, o));
                    let al = std::mem::take(&mut st.top.allocas);
                    for a in al {
                        self.del_obj(st, a as u64 + GLOBAL_ID);
                    }
                    match st.stack.pop() {
                        None => return Err(Stop::Done),
                        Some(fr) => {
                            let dst = st.top.dst;
                            st.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                            if dst != NONE {
                                st.top.regs[dst as usize] = v.unwrap_or(V::C(0));
                            }
                            st.top.ip += 1;
                        }
                    }
                    return Ok(());
                }
                I::Jmp(b) => return self.goto(st, *b),
                I::Br(c, t, e) => {
                    let v = self.opd(st, c);
                    let d = match self.decide(st, &v) {
                        Ok(d) => d,
                        Err(Stop::Fork(x)) => {
                            if self.try_merge(st, x, *t, *e, 0) {
                                return Ok(());
                            }
                            return Err(Stop::Fork(x));
                        }
                        Err(x) => return Err(x),
                    };
                    return self.goto(st, if d { *t } else { *e });
                }
                I::Switch(c, d, cs) => {
                    let v = self.opd(st, c);
                    let e = match v {
                        V::C(k) => {
                            let t = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                            return self.goto(st, t);
                        }
                        V::S(e) => self.simp(st, e),
                        _ => return Err(Stop::Bad("switch".into())),
                    };
                    if let Some(k) = self.c.is_const(e) {
                        let t = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                        return self.goto(st, t);
                    }
                    // first undecided case: fork on it and re-execute
                    let w = self.c.w(e);
                    // choose the case the model takes first, so that each fork is productive
                    let cur = self.c.eval(e, &st.model);
                    let mut first = None;
                    let mut all_false = true;
                    for (k, b) in cs {
                        let kk = self.c.c(w, *k);
                        let q = self.c.bin(Op::Eq, e, kk);
                        let q = self.simp(st, q);
                        match self.c.is_const(q) {
                            Some(1) => return self.goto(st, *b),
                            Some(_) => {}
                            None => {
                                all_false = false;
                                if first.is_none() || *k == cur {
                                    first = Some(q);
                                }
                            }
                        }
                    }
                    if all_false {
                        return self.goto(st, *d);
                    }
                    return Err(Stop::Fork(first.unwrap()));
                }
                I::Unreachable => {
                    return Err(Stop::Viol("unreachable", "reached an `unreachable` instruction".into()));
                }
                I::Call(..) => {
                    // calls may push a frame
                    if self.call(st, inst)? {
                        return Ok(());
                    }
                    st.top.ip += 1;
                }
                I::Bad(m) => return Err(Stop::Bad(m.clone())),
                _ => {
                    let v = self.simple(st, inst)?;
                    if inst.dst != NONE {
                        st.top.regs[inst.dst as usize] = v;
                    }
                    st.top.ip += 1;
                }
            }
        }
    }
    // ---------------------------------------------------------------- joining short side-effect-free diamonds
    /// block in which both arms of the branch ending `blk` meet again, if the region in between is short,
    /// acyclic and free of calls and wide stores
    fn join_of(&mut self, f: u32, blk: u32, t: u32, e: u32) -> Option<u32> {
        if let Some(j) = self.joins.get(&(f, blk)) {
            return *j;
        }
        let p = self.p;
        let fu = &p.funcs[f as usize];
        let mut memo: HashMap<u32, bool> = HashMap::new();
        let mut ok = |b: u32| -> bool {
            if let Some(&r) = memo.get(&b) {
                return r;
            }
            let bl = &fu.blocks[b as usize];
            let r = bl.insts.len() <= 24
                && bl.insts.iter().all(|i| match &i.i {
                    I::Jmp(_) | I::Br(..) | I::Bin(..) | I::Load(_) | I::Gep(..) | I::Trunc(..) | I::ZExt(..) | I::SExt(..) | I::Cast(..) | I::ICmp(..)
                    | I::Select(..) | I::ExtractValue(..) | I::Nop | I::Freeze(_) => true,
                    I::Store(_, _, t) => matches!(p.tys[*t as usize].ty, Ty::Int(w) if w <= 8),
                    I::Call(Callee::F(g), ..) => matches!(self.kinds[*g as usize], K::Ctlz | K::Cttz | K::Ctpop | K::Nop | K::Expect | K::UMin | K::UMax),
                    _ => false,
                });
            memo.insert(b, r);
            r
        };
        let succ = |b: u32| -> Vec<u32> {
            match fu.blocks[b as usize].insts.last().map(|i| &i.i) {
                Some(I::Jmp(x)) => vec![*x],
                Some(I::Br(_, x, y)) => vec![*x, *y],
                _ => vec![],
            }
        };
        // candidates in breadth-first order
        let mut cand = vec![t, e];
        let mut i = 0;
        while i < cand.len() && cand.len() < 12 {
            if ok(cand[i]) {
                for s in succ(cand[i]) {
                    if !cand.contains(&s) {
                        cand.push(s);
                    }
                }
            }
            i += 1;
        }
        fn meets(b: u32, j: u32, from: u32, left: &mut u32, ok: &mut dyn FnMut(u32) -> bool, succ: &dyn Fn(u32) -> Vec<u32>) -> bool {
            if b == j {
                return true;
            }
            if b == from || *left == 0 || !ok(b) {
                return false;
            }
            *left -= 1;
            let s = succ(b);
            !s.is_empty() && s.into_iter().all(|x| meets(x, j, from, left, ok, succ))
        }
        let mut r = None;
        for &j in &cand {
            if j == blk {
                continue;
            }
            let mut left = 12;
            if meets(t, j, blk, &mut left, &mut ok, &succ) && meets(e, j, blk, &mut left, &mut ok, &succ) {
                r = Some(j);
                break;
            }
        }
        self.joins.insert((f, blk), r);
        r
    }
    fn try_merge(&mut self, st: &mut State, c: E, t: u32, e: u32, depth: u32) -> bool {
        if depth > 3 || !self.cfg.merge {
            return false;
        }
        let Some(j) = self.join_of(st.top.f, st.top.blk, t, e) else { return false };
        let wl = self.work.len();
        let (Some(a), Some(b)) = (self.arm(st, t, j, depth), self.arm(st, e, j, depth)) else {
            self.work.truncate(wl);
            return false;
        };
        if self.work.len() != wl {
            self.work.truncate(wl);
            return false;
        }
        let same = |x: &State| x.pc == st.pc && x.kver == st.kver && x.nobj == st.nobj && x.live == st.live;
        if !same(&a) || !same(&b) {
            return false;
        }
        let p = self.p;
        let mut regs = vec![];
        for ph in &p.funcs[st.top.f as usize].blocks[j as usize].phis {
            let (x, y) = (&a.top.regs[ph.dst as usize], &b.top.regs[ph.dst as usize]);
            let v = match (x, y) {
                (V::C(m), V::C(n)) if m == n => x.clone(),
                (V::S(m), V::S(n)) if m == n => x.clone(),
                (V::A(_), _) | (_, V::A(_)) => return false,
                _ => {
                    if !matches!(p.tys[ph.ty as usize].ty, Ty::Int(w) if w <= 16) {
                        return false;
                    }
                    match self.select(c, x, y, ph.ty) {
                        Ok(v) => v,
                        Err(_) => return false,
                    }
                }
            };
            regs.push((ph.dst, v));
        }
        let mut chunks = st.chunks.clone();
        for i in 0..chunks.len() {
            if Rc::ptr_eq(&a.chunks[i], &b.chunks[i]) {
                chunks[i] = a.chunks[i].clone();
                continue;
            }
            let mut ch: Chunk = (*a.chunks[i]).clone();
            for k in 0..ch.len() {
                match (&mut ch[k], &b.chunks[i][k]) {
                    (None, None) => {}
                    (Some(x), Some(y)) => {
                        if !Arc::ptr_eq(&x.data, &y.data) && x.data != y.data {
                            let d = Arc::make_mut(&mut x.data);
                            for q in 0..d.len() {
                                if d[q] != y.data[q] {
                                    let (m, n) = (self.byte_e(st, d[q]), self.byte_e(st, y.data[q]));
                                    let z = self.c.ite(c, m, n);
                                    d[q] = self.e_byte(z);
                                }
                            }
                        }
                    }
                    _ => return false,
                }
            }
            chunks[i] = Rc::new(ch);
        }
        st.chunks = chunks;
        for (d, v) in regs {
            st.top.regs[d as usize] = v;
        }
        st.top.blk = j;
        st.top.ip = 0;
        st.steps = a.steps.max(b.steps);
        self.st.merges += 1;
        true
    }
    /// run one arm up to its arrival in `j` on a copy of the state; None if anything but straight evaluation happens
    fn arm(&mut self, st: &State, to: u32, j: u32, depth: u32) -> Option<State> {
        let p = self.p;
        let mut a = st.clone();
        self.goto(&mut a, to).ok()?;
        let f = &p.funcs[a.top.f as usize];
        let mut n = 0;
        while a.top.blk != j {
            n += 1;
            if n > 64 {
                return None;
            }
            let inst = &f.blocks[a.top.blk as usize].insts[a.top.ip as usize];
            if inst.line != 0 {
                self.hit[inst.line as usize] = true;
            }
            self.st.steps += 1;
            match &inst.i {
                I::Jmp(b) => self.goto(&mut a, *b).ok()?,
                I::Br(c, t, e) => {
                    let v = self.opd(&a, c);
                    match self.decide(&mut a, &v) {
                        Ok(d) => self.goto(&mut a, if d { *t } else { *e }).ok()?,
                        Err(Stop::Fork(x)) => {
                            // an inner diamond must close before the outer one does
                            if !self.try_merge(&mut a, x, *t, *e, depth + 1) {
                                return None;
                            }
                        }
                        Err(_) => return None,
                    }
                }
                I::Call(..) => {
                    if self.call(&mut a, inst).ok()? {
                        return None;
                    }
                    a.top.ip += 1;
                }
                _ => {
                    let v = self.simple(&mut a, inst).ok()?;
                    if inst.dst != NONE {
                        a.top.regs[inst.dst as usize] = v;
                    }
                    a.top.ip += 1;
                }
            }
        }
        Some(a)
    }
    fn bytes_of_wide(&mut self, v: &V, nb: usize, w: u32) -> Vec<E> {
        match v {
            V::A(xs) => {
                let mut o = vec![];
                for x in xs.iter() {
                    o.push(self.e(x, 8));
                }
                while o.len() < nb {
                    o.push(self.c.c(8, 0));
                }
                o.truncate(nb);
                o
            }
            _ => {
                let e = self.e(v, w);
                let up = (w + 7) / 8 * 8;
                let e = self.c.zext(e, up);
                let mut o = vec![];
                for i in 0..nb {
                    if (i as u32) < up / 8 {
                        o.push(self.c.extract(e, i as u32 * 8, 8));
                    } else {
                        o.push(self.c.c(8, 0));
                    }
                }
                o
            }
        }
    }
    fn wide(&mut self, es: Vec<E>) -> V {
        V::A(Arc::new(es.into_iter().map(|e| self.v(e)).collect()))
    }
    fn bin_v(&mut self, st: &State, opc: u32, x: &V, y: &V, t: u32) -> R<V> {
        let p = self.p;
        match (&p.tys[t as usize].ty, x, y) {
            (Ty::Vect(et, _), V::A(xs), V::A(ys)) => {
                let mut o = vec![];
                for i in 0..xs.len() {
                    o.push(self.bin_v(st, opc, &xs[i], &ys[i], *et)?);
                }
                return Ok(V::A(Arc::new(o)));
            }
            (Ty::Int(w), _, _) if *w > 128 => {
                let nb = (*w as usize + 7) / 8;
                let a = self.bytes_of_wide(x, nb, 8);
                match opc {
                    23 | 24 | 25 => {
                        let b = self.bytes_of_wide(y, nb, 8);
                        let op = [Op::And, Op::Or, Op::Xor][opc as usize - 23];
                        let r = (0..nb).map(|i| self.c.bin(op, a[i], b[i])).collect();
                        return Ok(self.wide(r));
                    }
                    20 | 21 => {
                        let b = self.bytes_of_wide(y, nb, 8);
                        let mut k = 0u64;
                        for i in 0..8 {
                            match self.c.is_const(b[i]) {
                                Some(v) => k |= (v as u64) << (8 * i),
                                None => return Err(Stop::Bad("wide shift by symbolic amount".into())),
                            }
                        }
                        let z = self.c.c(8, 0);
                        let (q, r) = ((k / 8) as i64, (k % 8) as u32);
                        let at = |i: i64| if i >= 0 && (i as usize) < nb { a[i as usize] } else { z };
                        let mut o = vec![];
                        for i in 0..nb as i64 {
                            let e = if opc == 21 {
                                let lo = at(i + q);
                                let hi = at(i + q + 1);
                                let c = self.c.concat(hi, lo);
                                self.c.extract(c, r, 8)
                            } else {
                                let hi = at(i - q);
                                let lo = at(i - q - 1);
                                let c = self.c.concat(hi, lo);
                                self.c.extract(c, 8 - r, 8)
                            };
                            o.push(e);
                        }
                        return Ok(self.wide(o));
                    }
                    _ => return Err(Stop::Bad(format!("wide int op {opc}"))),
                }
            }
            _ => {}
        }
        let w = self.width(t);
        let op = match opc {
            8 => Op::Add,
            10 => Op::Sub,
            12 => Op::Mul,
            14 => Op::UDiv,
            15 => Op::SDiv,
            17 => Op::URem,
            18 => Op::SRem,
            20 => Op::Shl,
            21 => Op::LShr,
            22 => Op::AShr,
            23 => Op::And,
            24 => Op::Or,
            25 => Op::Xor,
            _ => return Err(Stop::Bad("binop".into())),
        };
        if matches!(opc, 14 | 15 | 17 | 18) {
            match y {
                V::C(0) => return Err(Stop::Viol("arithmetic", "division by zero".into())),
                V::C(_) => {}
                V::S(e) => {
                    let e = self.simp(st, *e);
                    let z = self.c.c(w, 0);
                    let q = self.c.bin(Op::Eq, e, z);
                    let q = self.simp(st, q);
                    if self.c.is_const(q) == Some(1) {
                        return Err(Stop::Viol("arithmetic", "division by zero".into()));
                    }
                    if self.c.is_const(q).is_none() {
                        return Err(Stop::Fork(q));
                    }
                }
                _ => {}
            }
        }
        if let (V::C(a), V::C(b)) = (x, y) {
            return Ok(V::C(fold(op, w, *a, *b)));
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = self.c.bin(op, a, b);
        Ok(self.v(r))
    }
    fn icmp_v(&mut self, pred: i32, x: &V, y: &V, t: u32) -> R<V> {
        let p = self.p;
        if let (Ty::Vect(et, _), V::A(xs), V::A(ys)) = (&p.tys[t as usize].ty, x, y) {
            let mut o = vec![];
            for i in 0..xs.len() {
                o.push(self.icmp_v(pred, &xs[i], &ys[i], *et)?);
            }
            return Ok(V::A(Arc::new(o)));
        }
        if let Ty::Int(w) = &p.tys[t as usize].ty {
            if *w > 128 {
                let nb = (*w as usize + 7) / 8;
                let a = self.bytes_of_wide(x, nb, 8);
                let b = self.bytes_of_wide(y, nb, 8);
                let mut eq = Ctx::TRUE;
                let mut lt = Ctx::FALSE;
                for i in 0..nb {
                    let q = self.c.bin(Op::Eq, a[i], b[i]);
                    let l = self.c.bin(Op::Ult, a[i], b[i]);
                    eq = self.c.bin(Op::And, eq, q);
                    // most significant byte decides last (iteration goes upwards)
                    let keep = self.c.bin(Op::And, q, lt);
                    lt = self.c.bin(Op::Or, l, keep);
                }
                let r = match pred {
                    32 => eq,
                    33 => self.c.not1(eq),
                    36 => lt,
                    35 => self.c.not1(lt),
                    37 => self.c.bin(Op::Or, lt, eq),
                    34 => {
                        let le = self.c.bin(Op::Or, lt, eq);
                        self.c.not1(le)
                    }
                    _ => return Err(Stop::Bad("wide signed compare".into())),
                };
                return Ok(self.v(r));
            }
        }
        let w = self.width(t);
        if w == 0 {
            return Err(Stop::Bad("icmp type".into()));
        }
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sx(a, w), sx(b, w));
            let r = match pred {
                32 => a == b,
                33 => a != b,
                34 => a > b,
                35 => a >= b,
                36 => a < b,
                37 => a <= b,
                38 => sa > sb,
                39 => sa >= sb,
                40 => sa < sb,
                41 => sa <= sb,
                _ => return Err(Stop::Bad("icmp".into())),
            };
            return Ok(V::C(r as u128));
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = match pred {
            32 => self.c.bin(Op::Eq, a, b),
            33 => {
                let q = self.c.bin(Op::Eq, a, b);
                self.c.not1(q)
            }
            34 => self.c.bin(Op::Ult, b, a),
            35 => {
                let q = self.c.bin(Op::Ult, a, b);
                self.c.not1(q)
            }
            36 => self.c.bin(Op::Ult, a, b),
            37 => {
                let q = self.c.bin(Op::Ult, b, a);
                self.c.not1(q)
            }
            38 => self.c.bin(Op::Slt, b, a),
            39 => {
                let q = self.c.bin(Op::Slt, a, b);
                self.c.not1(q)
            }
            40 => self.c.bin(Op::Slt, a, b),
            41 => {
                let q = self.c.bin(Op::Slt, b, a);
                self.c.not1(q)
            }
            _ => return Err(Stop::Bad("icmp".into())),
        };
        Ok(self.v(r))
    }
    fn cast_v(&mut self, kind: u8, x: &V, from: u32, to: u32) -> R<V> {
        let p = self.p;
        if let (Ty::Vect(fe, _), Ty::Vect(te, _), V::A(xs)) = (&p.tys[from as usize].ty, &p.tys[to as usize].ty, x) {
            let mut o = vec![];
            for v in xs.iter() {
                o.push(self.cast_v(kind, v, *fe, *te)?);
            }
            return Ok(V::A(Arc::new(o)));
        }
        let (wf, wt) = (self.width(from), self.width(to));
        if wf > 128 || wt > 128 {
            if kind == 0 {
                let nb = (wt as usize + 7) / 8;
                let bs = self.bytes_of_wide(x, nb, 8);
                if wt > 128 {
                    return Ok(self.wide(bs));
                }
                let mut e = bs[nb - 1];
                for i in (0..nb - 1).rev() {
                    e = self.c.concat(e, bs[i]);
                }
                if self.c.w(e) > wt {
                    e = self.c.extract(e, 0, wt);
                }
                return Ok(self.v(e));
            }
            if kind == 1 {
                let nb = (wt as usize + 7) / 8;
                let bs = self.bytes_of_wide(x, nb, wf.min(128));
                return Ok(self.wide(bs));
            }
            return Err(Stop::Bad("wide sext".into()));
        }
        Ok(match x {
            V::C(k) => match kind {
                0 => V::C(k & mask(wt)),
                1 => V::C(*k),
                _ => V::C((sx(*k, wf) as u128) & mask(wt)),
            },
            V::S(e) => {
                let r = match kind {
                    0 => self.c.extract(*e, 0, wt),
                    1 => self.c.zext(*e, wt),
                    _ => self.c.sext(*e, wt),
                };
                self.v(r)
            }
            _ => return Err(Stop::Bad("cast".into())),
        })
    }
    fn simple(&mut self, st: &mut State, inst: &Inst) -> R<V> {
        Ok(match &inst.i {
            I::Bin(opc, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                self.bin_v(st, *opc, &x, &y, inst.ty)?
            }
            I::Alloca(sz, n, al) => {
                let nv = self.opd(st, n);
                let n = self.conc(st, &nv)? as u64;
                let a = self.new_obj(st, sz * n, 2, *al);
                st.top.allocas.push(((a >> 32) - GLOBAL_ID) as u32);
                V::C(a as u128)
            }
            I::Load(a) => {
                let a = self.opd(st, a);
                self.load(st, &a, inst.ty)?
            }
            I::Store(v, a, t) => {
                let v = self.opd(st, v);
                let a = self.opd(st, a);
                self.store(st, &a, &v, *t)?;
                V::C(0)
            }
            I::Gep(b, off, ix) => {
                let base = self.opd(st, b);
                let mut all_c = matches!(base, V::C(_));
                let mut acc = match &base {
                    V::C(k) => *k as u64,
                    _ => 0,
                };
                acc = acc.wrapping_add(*off as u64);
                let mut syms: Vec<E> = vec![];
                if let V::S(e) = base {
                    syms.push(e);
                }
                if let V::A(_) = base {
                    return Err(Stop::Bad("vector gep".into()));
                }
                for (o, sc, w) in ix {
                    match self.opd(st, o) {
                        V::C(k) => acc = acc.wrapping_add((sx(k, *w) as i64).wrapping_mul(*sc) as u64),
                        V::S(e) => {
                            all_c = false;
                            let e = if *w < 64 {
                                self.c.sext(e, 64)
                            } else if *w > 64 {
                                self.c.extract(e, 0, 64)
                            } else {
                                e
                            };
                            let e = if *sc == 1 {
                                e
                            } else {
                                let k = self.c.c(64, *sc as i128 as u128);
                                self.c.bin(Op::Mul, e, k)
                            };
                            syms.push(e);
                        }
                        _ => return Err(Stop::Bad("vector gep".into())),
                    }
                }
                if all_c {
                    V::C(acc as u128)
                } else {
                    let mut r = syms[0];
                    for &s in &syms[1..] {
                        r = self.c.bin(Op::Add, r, s);
                    }
                    let k = self.c.c(64, acc as u128);
                    let r = self.c.bin(Op::Add, r, k);
                    self.v(r)
                }
            }
            I::Trunc(a, t) => {
                let v = self.opd(st, a);
                self.cast_v(0, &v, *t, inst.ty)?
            }
            I::ZExt(a, t) => {
                let v = self.opd(st, a);
                self.cast_v(1, &v, *t, inst.ty)?
            }
            I::SExt(a, t) => {
                let v = self.opd(st, a);
                self.cast_v(2, &v, *t, inst.ty)?
            }
            I::Cast(a, t) => {
                let v = self.opd(st, a);
                let (wf, wt) = (self.width(*t), self.width(inst.ty));
                if wf == wt {
                    v
                } else if wf > wt {
                    self.cast_v(0, &v, *t, inst.ty)?
                } else {
                    self.cast_v(1, &v, *t, inst.ty)?
                }
            }
            I::BitCast(a, t) => {
                let v = self.opd(st, a);
                if *t == inst.ty || (self.width(*t) != 0 && self.width(*t) == self.width(inst.ty) && self.width(*t) <= 128) {
                    v
                } else {
                    // iN <-> <k x i1>
                    let p = self.p;
                    if let (Ty::Vect(et, n), Ty::Int(w)) = (&p.tys[*t as usize].ty, &p.tys[inst.ty as usize].ty) {
                        if self.width(*et) == 1 && *n as u32 == *w && *w <= 128 {
                            if let V::A(xs) = &v {
                                let mut e = self.e(&xs[*n as usize - 1], 1);
                                for i in (0..*n as usize - 1).rev() {
                                    let l = self.e(&xs[i], 1);
                                    e = self.c.concat(e, l);
                                }
                                return Ok(self.v(e));
                            }
                        }
                    }
                    let n = self.store_size(*t).max(self.store_size(inst.ty)) as usize;
                    let mut b = vec![0u32; n];
                    self.encode_ty(&v, *t, &mut b)?;
                    self.decode_ty(st, &b, inst.ty)?
                }
            }
            I::ICmp(pr, a, b, t) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                self.icmp_v(*pr, &x, &y, *t)?
            }
            I::Select(c, a, b) => {
                let cv = self.opd(st, c);
                match cv {
                    V::C(k) => self.opd(st, if k & 1 == 1 { a } else { b }),
                    V::S(e) => {
                        let e = self.simp(st, e);
                        let (x, y) = (self.opd(st, a), self.opd(st, b));
                        // pointers and lengths: decide now, so that slice bounds stay concrete
                        if self.c.is_const(e).is_none()
                            && match &self.p.tys[inst.ty as usize].ty {
                                Ty::Ptr => true,
                                Ty::Int(64) => !matches!((&x, &y), (V::C(_), V::C(_))),
                                _ => false,
                            }
                        {
                            return Err(Stop::Fork(e));
                        }
                        self.select(e, &x, &y, inst.ty)?
                    }
                    V::A(cs) => {
                        let (x, y) = (self.opd(st, a), self.opd(st, b));
                        let (V::A(xs), V::A(ys)) = (&x, &y) else { return Err(Stop::Bad("vselect".into())) };
                        let et = match &self.p.tys[inst.ty as usize].ty {
                            Ty::Vect(e, _) => *e,
                            _ => return Err(Stop::Bad("vselect".into())),
                        };
                        let mut o = vec![];
                        for i in 0..cs.len() {
                            let c = self.e(&cs[i], 1);
                            o.push(self.select(c, &xs[i], &ys[i], et)?);
                        }
                        V::A(Arc::new(o))
                    }
                }
            }
            I::ExtractElement(v, i) => {
                let v = self.opd(st, v);
                let i = self.opd(st, i);
                let i = self.conc(st, &i)? as usize;
                match v {
                    V::A(xs) => xs[i].clone(),
                    _ => return Err(Stop::Bad("extractelement".into())),
                }
            }
            I::InsertElement(v, x, i) => {
                let v = self.opd(st, v);
                let x = self.opd(st, x);
                let i = self.opd(st, i);
                let i = self.conc(st, &i)? as usize;
                match v {
                    V::A(xs) => {
                        let mut o = (*xs).clone();
                        o[i] = x;
                        V::A(Arc::new(o))
                    }
                    _ => return Err(Stop::Bad("insertelement".into())),
                }
            }
            I::Shuffle(a, b, m) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let (V::A(xs), V::A(ys)) = (&x, &y) else { return Err(Stop::Bad("shuffle".into())) };
                let mut o = vec![];
                for &k in m {
                    o.push(if k < 0 {
                        xs[0].clone()
                    } else if (k as usize) < xs.len() {
                        xs[k as usize].clone()
                    } else {
                        ys[k as usize - xs.len()].clone()
                    });
                }
                V::A(Arc::new(o))
            }
            I::ExtractValue(v, ix) => {
                let mut v = self.opd(st, v);
                for &i in ix {
                    v = match v {
                        V::A(xs) => xs[i as usize].clone(),
                        _ => return Err(Stop::Bad("extractvalue".into())),
                    };
                }
                v
            }
            I::InsertValue(v, x, ix) => {
                let v = self.opd(st, v);
                let x = self.opd(st, x);
                fn ins(v: &V, x: V, ix: &[u32]) -> Option<V> {
                    if ix.is_empty() {
                        return Some(x);
                    }
                    match v {
                        V::A(xs) => {
                            let mut o = (**xs).clone();
                            o[ix[0] as usize] = ins(&o[ix[0] as usize], x, &ix[1..])?;
                            Some(V::A(Arc::new(o)))
                        }
                        _ => None,
                    }
                }
                ins(&v, x, ix).ok_or(Stop::Bad("insertvalue".into()))?
            }
            I::Freeze(a) => self.opd(st, a),
            I::CmpXchg(a, c, n, t) => {
                let a = self.opd(st, a);
                let cmp = self.opd(st, c);
                let new = self.opd(st, n);
                let old = self.load(st, &a, *t)?;
                let eq = self.icmp_v(32, &old, &cmp, *t)?;
                let q = self.e(&eq, 1);
                let r = self.select(q, &new, &old, *t)?;
                self.store(st, &a, &r, *t)?;
                V::A(Arc::new(vec![old, eq]))
            }
            I::Rmw(op, a, v) => {
                let a = self.opd(st, a);
                let v = self.opd(st, v);
                let t = inst.ty;
                let old = self.load(st, &a, t)?;
                let r = match op {
                    0 => v,
                    1 => self.bin_v(st, 8, &old, &v, t)?,
                    2 => self.bin_v(st, 10, &old, &v, t)?,
                    3 => self.bin_v(st, 23, &old, &v, t)?,
                    5 => self.bin_v(st, 24, &old, &v, t)?,
                    6 => self.bin_v(st, 25, &old, &v, t)?,
                    _ => return Err(Stop::Bad("atomicrmw".into())),
                };
                self.store(st, &a, &r, t)?;
                old
            }
            _ => return Err(Stop::Bad("instruction".into())),
        })
    }

    fn push_call(&mut self, st: &mut State, fi: u32, args: Vec<V>, dst: u32) -> R<()> {
        let f = &self.p.funcs[fi as usize];
        if st.stack.len() > 2000 {
            return Err(Stop::Viol("stack", "call depth above 2000".into()));
        }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < f.nparams as usize {
                regs[i] = a;
            }
        }
        let fr = Frame { f: fi, blk: 0, ip: 0, regs, allocas: vec![], dst };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }

    fn heap_account(&mut self, st: &mut State, size: u64) {
        st.live += size;
        st.peak = st.peak.max(st.live);
        st.maxreq = st.maxreq.max(size);
    }
    fn alloc_size(&mut self, st: &mut State, v: &V) -> R<u64> {
        // a symbolic request must never exceed the global limit
        if let V::S(e) = v {
            let e = self.simp(st, *e);
            if self.c.is_const(e).is_none() {
                let lim = self.c.c(64, self.cfg.max_alloc as u128);
                let big = self.c.bin(Op::Ult, lim, e);
                let big = self.simp(st, big);
                if self.c.is_const(big) == Some(1) {
                    return Err(Stop::Viol("allocation", format!("single request above {} bytes", self.cfg.max_alloc)));
                }
                if self.c.is_const(big).is_none() {
                    return Err(Stop::Fork(big));
                }
            }
        }
        let n = self.conc(st, v)? as u64;
        if n > self.cfg.max_alloc {
            return Err(Stop::Viol("allocation", format!("single request of {n} bytes")));
        }
        Ok(n)
    }

    /// returns true when a frame was pushed
    fn call(&mut self, st: &mut State, inst: &Inst) -> R<bool> {
        let p = self.p;
        let I::Call(callee, args, atys) = &inst.i else { unreachable!() };
        let fi = match callee {
            Callee::F(f) => *f,
            Callee::Asm => {
                // black_box style barriers: no effect on values
                return Ok(false);
            }
            Callee::V(o) => {
                let v = self.opd(st, o);
                let a = match v {
                    V::S(e) => {
                        let e = self.simp(st, e);
                        let n = self.c.n(e);
                        if n.op == Op::Ite {
                            let c = self.simp(st, n.a);
                            return Err(Stop::Fork(c));
                        }
                        self.conc(st, &V::S(e))?
                    }
                    V::C(k) => k,
                    _ => return Err(Stop::Bad("call target".into())),
                } as u64;
                let id = a >> 32;
                if id < FUNC_ID || id - FUNC_ID >= p.funcs.len() as u64 || a & 0xffff_ffff != 0 {
                    return Err(Stop::Viol("memory", format!("indirect call to {a:#x}")));
                }
                (id - FUNC_ID) as u32
            }
        };
        let k = self.kinds[fi as usize];
        if k == K::Body {
            let mut a = Vec::with_capacity(args.len());
            for o in args {
                a.push(self.opd(st, o));
            }
            self.push_call(st, fi, a, inst.dst)?;
            return Ok(true);
        }
        macro_rules! arg {
            ($i:expr) => {
                self.opd(st, &args[$i])
            };
        }
        macro_rules! conc {
            ($i:expr) => {{
                let v = self.opd(st, &args[$i]);
                self.conc(st, &v)? as u64
            }};
        }
        let t0 = atys.first().copied().unwrap_or(0);
        // element-wise intrinsics on vectors
        if let (Some(Ty::Vect(et, n)), true) = (
            atys.first().map(|t| &p.tys[*t as usize].ty),
            matches!(
                k,
                K::UMax | K::UMin | K::SMax | K::SMin | K::Abs | K::Ctlz | K::Cttz | K::Ctpop | K::Bswap | K::Bitreverse | K::UAddSat | K::USubSat
            ),
        ) {
            let vals: Vec<V> = args.iter().map(|o| self.opd(st, o)).collect();
            let mut o = vec![];
            for i in 0..*n as usize {
                let lane: Vec<V> = vals
                    .iter()
                    .map(|v| match v {
                        V::A(xs) => xs[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                o.push(self.scalar(k, &lane, *et)?);
            }
            st.top.regs[inst.dst as usize] = V::A(Arc::new(o));
            return Ok(false);
        }
        if matches!(k, K::UMax | K::UMin) && matches!(p.tys[t0 as usize].ty, Ty::Int(64)) {
            let (x, y) = (self.opd(st, &args[0]), self.opd(st, &args[1]));
            let (a, b) = (self.e(&x, 64), self.e(&y, 64));
            let (a, b) = (self.simp(st, a), self.simp(st, b));
            let q = self.c.bin(Op::Ult, a, b);
            let q = self.simp(st, q);
            match self.c.is_const(q) {
                None => return Err(Stop::Fork(q)),
                Some(lt) => {
                    let r = if (lt == 1) == (k == K::UMin) { a } else { b };
                    st.top.regs[inst.dst as usize] = self.v(r);
                    return Ok(false);
                }
            }
        }
        let r: V = match k {
            K::Body => unreachable!(),
            K::Unknown => return Err(Stop::Bad(format!("call to unmodelled function {}", p.funcs[fi as usize].name))),
            K::Panic => {
                let t = self.stack_trace(st);
                return Err(Stop::Panicked(format!("panic via {}", demangle_hint(&p.funcs[fi as usize].name, &t))));
            }
            K::Abort => return Err(Stop::Viol("abort", format!("abort via {}", p.funcs[fi as usize].name))),
            K::Nop => V::C(0),
            K::Zero => V::C(0),
            K::Fmt => {
                let a = arg!(0);
                match self.fmt_stub {
                    Some(s) => {
                        self.push_call(st, s, vec![a], NONE)?;
                        return Ok(true);
                    }
                    None => return Err(Stop::Bad("sx_empty_string missing".into())),
                }
            }
            K::Sym => {
                let a = conc!(0);
                let n = conc!(1);
                let mut b = vec![];
                let start = st.nsym;
                for i in 0..n as u32 {
                    let e = self.c.sym(start + i);
                    b.push(e + 256);
                }
                self.write_bytes(st, a, &b)?;
                st.nsym += n as u32;
                let m = Rc::make_mut(&mut st.model);
                m.resize(st.nsym as usize, 0);
                st.draws.push(Draw::Sym(start, n as u32));
                V::C(0)
            }
            K::Choose => {
                let n = conc!(0);
                if n == 0 {
                    return Err(Stop::Kill);
                }
                return Err(Stop::Choose(n));
            }
            K::Split => {
                let n = conc!(0);
                return Err(Stop::Split(n));
            }
            K::Symbolic => V::C(1),
            K::Assume => {
                let v = arg!(0);
                let c = self.truth(st, &v)?;
                match self.c.is_const(c) {
                    Some(1) => {}
                    Some(_) => return Err(Stop::Kill),
                    None => match self.sat(st, c)? {
                        None => return Err(Stop::Kill),
                        Some(m) => {
                            st.model = m;
                            self.add(st, c);
                        }
                    },
                }
                V::C(0)
            }
            K::Check => {
                let v = arg!(0);
                let c = self.truth(st, &v)?;
                let msg = |me: &mut Self, st: &State| -> String {
                    let a = match me.opd(st, &args[1]) {
                        V::C(k) => k as u64,
                        _ => 0,
                    };
                    let n = match me.opd(st, &args[2]) {
                        V::C(k) => k as u64,
                        _ => 0,
                    };
                    match me.read_bytes(st, a, n) {
                        Ok(b) => b.iter().map(|x| *x as u8 as char).collect(),
                        _ => "?".into(),
                    }
                };
                match self.c.is_const(c) {
                    Some(1) => self.st.checks_trivial += 1,
                    Some(_) => {
                        let m = msg(self, st);
                        return Err(Stop::Viol("check", m));
                    }
                    None => {
                        self.st.checks_solved += 1;
                        let nc = self.c.not1(c);
                        match self.sat(st, nc)? {
                            None => self.note(st, c),
                            Some(m) => {
                                let text = msg(self, st);
                                let trace = self.stack_trace(st);
                                let draws = self.draws_str(st, &m);
                                self.add_viol("check", text, trace, draws);
                                // continue on the side where it holds
                                match self.sat(st, c)? {
                                    None => return Err(Stop::Kill),
                                    Some(m) => {
                                        st.model = m;
                                        self.add(st, c);
                                    }
                                }
                            }
                        }
                    }
                }
                V::C(0)
            }
            K::Cover => {
                let k = conc!(0) as u32;
                if !st.covers.contains(&k) {
                    Rc::make_mut(&mut st.covers).push(k);
                }
                V::C(0)
            }
            K::Out => {
                let a = conc!(0);
                let n = conc!(1);
                let b = self.read_bytes(st, a, n)?;
                Rc::make_mut(&mut st.outs).push(b);
                V::C(0)
            }
            K::AllowPanic => {
                let v = conc!(0);
                st.allow_panic = v & 1 == 1;
                V::C(0)
            }
            K::Same => {
                // prove two byte ranges equal, then let the first be represented by the second
                let (pa, qa, n) = (conc!(0), conc!(1), conc!(2));
                let (x, y) = (self.read_bytes(st, pa, n)?, self.read_bytes(st, qa, n)?);
                let mut qs = vec![];
                for i in 0..n as usize {
                    if x[i] != y[i] {
                        let (a, b) = (self.byte_e(st, x[i]), self.byte_e(st, y[i]));
                        let q = self.c.bin(Op::Eq, a, b);
                        let q = self.simp(st, q);
                        if self.c.is_const(q) != Some(1) {
                            qs.push(q);
                        }
                    }
                }
                if qs.is_empty() {
                    self.st.checks_trivial += 1;
                }
                for g in qs.chunks(4) {
                    let mut all = Ctx::TRUE;
                    for &q in g {
                        all = self.c.bin(Op::And, all, q);
                    }
                    self.st.checks_solved += 1;
                    let nc = self.c.not1(all);
                    if let Some(m) = self.sat(st, nc)? {
                        let t = match (self.opd(st, &args[3]), self.opd(st, &args[4])) {
                            (V::C(a), V::C(l)) => self.read_bytes(st, a as u64, l as u64).map(|b| b.iter().map(|x| *x as u8 as char).collect()).unwrap_or_default(),
                            _ => String::new(),
                        };
                        let trace = self.stack_trace(st);
                        let draws = self.draws_str(st, &m);
                        self.add_viol("check", t, trace, draws);
                        return Err(Stop::Kill);
                    }
                }
                if x != y && n > 0 && self.obj(st, pa >> 32).map(|o| o.kind != 0).unwrap_or(false) {
                    self.write_bytes(st, pa, &y)?;
                }
                V::C(0)
            }
            K::HeapLive => V::C(st.live as u128),
            K::HeapPeak => V::C(st.peak as u128),
            K::HeapMax => V::C(st.maxreq as u128),
            K::HeapReset => {
                st.peak = st.live;
                st.maxreq = 0;
                V::C(0)
            }
            K::Alloc | K::Malloc => {
                let v = arg!(0);
                let n = self.alloc_size(st, &v)?;
                let al = if k == K::Alloc { conc!(1) } else { 16 };
                self.heap_account(st, n);
                V::C(self.new_obj(st, n, 3, al) as u128)
            }
            K::Calloc => {
                let n = conc!(0) * conc!(1);
                self.heap_account(st, n);
                let a = self.new_obj(st, n, 3, 16);
                self.write_bytes(st, a, &vec![0; n as usize])?;
                V::C(a as u128)
            }
            K::PosixMemalign => {
                let out = arg!(0);
                let n = conc!(2);
                self.heap_account(st, n);
                let a = self.new_obj(st, n, 3, 16);
                let mut b = vec![];
                for i in 0..8 {
                    b.push(((a >> (8 * i)) & 255) as u32);
                }
                let o = self.conc(st, &out)? as u64;
                self.write_bytes(st, o, &b)?;
                V::C(0)
            }
            K::Free | K::CFree => {
                let a = conc!(0);
                if a != 0 {
                    match self.obj(st, a >> 32) {
                        Some(o) if o.kind == 3 && a & 0xffff_ffff == 0 => {
                            let sz = o.size;
                            st.live -= sz;
                            self.del_obj(st, a >> 32);
                        }
                        _ => return Err(Stop::Viol("memory", format!("invalid free of {a:#x}"))),
                    }
                }
                V::C(0)
            }
            K::Realloc | K::CRealloc => {
                let a = conc!(0);
                let v = arg!(1);
                let n = self.alloc_size(st, &v)?;
                let (old, osz, al) = match self.obj(st, a >> 32) {
                    Some(o) if o.kind == 3 && a & 0xffff_ffff == 0 => (o.data.clone(), o.size, o.align),
                    _ if a == 0 => (Arc::new(vec![]), 0, 16),
                    _ => return Err(Stop::Viol("memory", format!("invalid realloc of {a:#x}"))),
                };
                // the peak counts old and new block together (as a moving realloc needs)
                self.heap_account(st, n);
                let na = self.new_obj(st, n, 3, al);
                let m = osz.min(n) as usize;
                self.write_bytes(st, na, &old[..m])?;
                if a != 0 {
                    st.live -= osz;
                    self.del_obj(st, a >> 32);
                }
                V::C(na as u128)
            }
            K::Memcpy | K::Memmove => {
                let n = conc!(2);
                let d = arg!(0);
                let s = arg!(1);
                if n > 0 {
                    let d = self.conc(st, &d)? as u64;
                    match self.resolve(st, &s, n, false)? {
                        Addr::C(s) => {
                            let b = self.read_bytes(st, s, n)?;
                            self.write_bytes(st, d, &b)?;
                        }
                        Addr::S(..) => {
                            let s = self.conc(st, &s)? as u64;
                            let b = self.read_bytes(st, s, n)?;
                            self.write_bytes(st, d, &b)?;
                        }
                    }
                }
                arg!(0)
            }
            K::Memset => {
                let n = conc!(2);
                let v = arg!(1);
                if n > 0 {
                    let d = conc!(0);
                    let w = self.width(atys[1]);
                    let e = self.e(&v, w);
                    let e = if w > 8 { self.c.extract(e, 0, 8) } else { e };
                    let b = self.e_byte(e);
                    self.write_bytes(st, d, &vec![b; n as usize])?;
                }
                arg!(0)
            }
            K::Bcmp | K::Memcmp => {
                let n = conc!(2);
                if n == 0 {
                    V::C(0)
                } else {
                    let (a, b) = (conc!(0), conc!(1));
                    let x = self.read_bytes(st, a, n)?;
                    let y = self.read_bytes(st, b, n)?;
                    if k == K::Bcmp {
                        let mut eq = Ctx::TRUE;
                        for i in 0..n as usize {
                            if x[i] == y[i] {
                                continue;
                            }
                            let (p, q) = (self.byte_e(st, x[i]), self.byte_e(st, y[i]));
                            let t = self.c.bin(Op::Eq, p, q);
                            eq = self.c.bin(Op::And, t, eq);
                            if eq == Ctx::FALSE {
                                break;
                            }
                        }
                        let eq = self.simp(st, eq);
                        let ne = self.c.not1(eq);
                        let r = self.c.zext(ne, 32);
                        self.v(r)
                    } else {
                        let mut r = self.c.c(32, 0);
                        let m1 = self.c.c(32, u128::MAX);
                        let p1 = self.c.c(32, 1);
                        for i in (0..n as usize).rev() {
                            if x[i] == y[i] {
                                continue;
                            }
                            let (p, q) = (self.byte_e(st, x[i]), self.byte_e(st, y[i]));
                            let l = self.c.bin(Op::Ult, p, q);
                            let g = self.c.bin(Op::Ult, q, p);
                            let t = self.c.ite(g, p1, r);
                            r = self.c.ite(l, m1, t);
                        }
                        let r = self.simp(st, r);
                        self.v(r)
                    }
                }
            }
            K::Strlen => {
                let a = conc!(0);
                let mut n = 0u64;
                loop {
                    let b = self.read_bytes(st, a + n, 1)?[0];
                    if b == 0 {
                        break;
                    }
                    if b >= 256 {
                        return Err(Stop::Bad("strlen of symbolic".into()));
                    }
                    n += 1;
                }
                V::C(n as u128)
            }
            K::Expect => arg!(0),
            K::IsConstant => V::C(0),
            K::Threadlocal => arg!(0),
            K::Ptrmask => {
                let (x, y) = (arg!(0), arg!(1));
                let (a, b) = (self.e(&x, 64), self.e(&y, 64));
                let r = self.c.bin(Op::And, a, b);
                self.v(r)
            }
            K::LoadRelative => {
                return Err(Stop::Bad("llvm.load.relative".into()));
            }
            K::ReduceAnd | K::ReduceOr | K::ReduceXor | K::ReduceAdd | K::ReduceUMax | K::ReduceUMin => {
                let v = arg!(0);
                let et = match &p.tys[t0 as usize].ty {
                    Ty::Vect(e, _) => *e,
                    _ => return Err(Stop::Bad("reduce".into())),
                };
                let V::A(xs) = v else { return Err(Stop::Bad("reduce".into())) };
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = match k {
                        K::ReduceAnd => self.bin_v(st, 23, &acc, x, et)?,
                        K::ReduceOr => self.bin_v(st, 24, &acc, x, et)?,
                        K::ReduceXor => self.bin_v(st, 25, &acc, x, et)?,
                        K::ReduceAdd => self.bin_v(st, 8, &acc, x, et)?,
                        K::ReduceUMax => self.scalar(K::UMax, &[acc, x.clone()], et)?,
                        _ => self.scalar(K::UMin, &[acc, x.clone()], et)?,
                    };
                }
                acc
            }
            _ => {
                let vals: Vec<V> = args.iter().map(|o| self.opd(st, o)).collect();
                self.scalar(k, &vals, t0)?
            }
        };
        if inst.dst != NONE {
            st.top.regs[inst.dst as usize] = r;
        }
        Ok(false)
    }
    fn truth(&mut self, st: &State, v: &V) -> R<E> {
        let e = match v {
            V::C(k) => return Ok(if *k & 1 == 1 { Ctx::TRUE } else { Ctx::FALSE }),
            V::S(e) => *e,
            _ => return Err(Stop::Bad("truth".into())),
        };
        let e = if self.c.w(e) > 1 { self.c.extract(e, 0, 1) } else { e };
        Ok(self.simp(st, e))
    }
    fn scalar(&mut self, k: K, a: &[V], t: u32) -> R<V> {
        let w = self.width(t);
        if w > 128 && matches!(k, K::Bswap) {
            let nb = w as usize / 8;
            let mut b = self.bytes_of_wide(&a[0], nb, 8);
            b.reverse();
            return Ok(self.wide(b));
        }
        if w > 128 || w == 0 {
            return Err(Stop::Bad(format!("intrinsic {k:?} on width {w}")));
        }
        let x = self.e(&a[0], w);
        let y = if a.len() > 1 && !matches!(k, K::Abs | K::Ctlz | K::Cttz) { self.e(&a[1], w) } else { x };
        let c = &mut self.c;
        let pair = |s: &Self, r: E, o: E| V::A(Arc::new(vec![s.v(r), s.v(o)]));
        let r = match k {
            K::UAddO => {
                let s = c.bin(Op::Add, x, y);
                let o = c.bin(Op::Ult, s, x);
                // with a constant operand: overflow iff x > MAX - k
                let o = match c.is_const(y) {
                    Some(kk) => {
                        let lim = c.c(w, mask(w) - kk);
                        c.bin(Op::Ult, lim, x)
                    }
                    None => {
                        if c.umax(x, 8).checked_add(c.umax(y, 8)).map_or(false, |m| m <= mask(w)) {
                            Ctx::FALSE
                        } else {
                            o
                        }
                    }
                };
                return Ok(pair(self, s, o));
            }
            K::USubO => {
                let s = c.bin(Op::Sub, x, y);
                let o = c.bin(Op::Ult, x, y);
                return Ok(pair(self, s, o));
            }
            K::UMulO => {
                let s = c.bin(Op::Mul, x, y);
                let o = if let Some(kk) = c.is_const(y) {
                    if kk == 0 {
                        Ctx::FALSE
                    } else {
                        let lim = c.c(w, mask(w) / kk);
                        c.bin(Op::Ult, lim, x)
                    }
                } else if let Some(kk) = c.is_const(x) {
                    if kk == 0 {
                        Ctx::FALSE
                    } else {
                        let lim = c.c(w, mask(w) / kk);
                        c.bin(Op::Ult, lim, y)
                    }
                } else if c.umax(x, 8).checked_mul(c.umax(y, 8)).map_or(false, |m| m <= mask(w)) {
                    Ctx::FALSE
                } else if w <= 64 {
                    let (p, q) = (c.zext(x, 2 * w), c.zext(y, 2 * w));
                    let m = c.bin(Op::Mul, p, q);
                    let h = c.extract(m, w, w);
                    let z = c.c(w, 0);
                    let e = c.bin(Op::Eq, h, z);
                    c.not1(e)
                } else {
                    return Err(Stop::Bad("umul.with.overflow i128".into()));
                };
                return Ok(pair(self, s, o));
            }
            K::SAddO | K::SSubO | K::SMulO => {
                if w > 64 {
                    if let (Some(a), Some(b)) = (c.is_const(x), c.is_const(y)) {
                        let (a, b) = (sx(a, w), sx(b, w));
                        let (r, o) = match k {
                            K::SAddO => a.overflowing_add(b),
                            K::SSubO => a.overflowing_sub(b),
                            _ => a.overflowing_mul(b),
                        };
                        let r = c.c(w, r as u128);
                        return Ok(pair(self, r, o as u32));
                    }
                    return Err(Stop::Bad("signed overflow op on i128".into()));
                }
                let (p, q) = (c.sext(x, 2 * w), c.sext(y, 2 * w));
                let op = match k {
                    K::SAddO => Op::Add,
                    K::SSubO => Op::Sub,
                    _ => Op::Mul,
                };
                let f = c.bin(op, p, q);
                let s = c.bin(op, x, y);
                let se = c.sext(s, 2 * w);
                let e = c.bin(Op::Eq, f, se);
                let o = c.not1(e);
                return Ok(pair(self, s, o));
            }
            K::UAddSat => {
                let s = c.bin(Op::Add, x, y);
                let o = c.bin(Op::Ult, s, x);
                let m = c.c(w, mask(w));
                c.ite(o, m, s)
            }
            K::USubSat => {
                let s = c.bin(Op::Sub, x, y);
                let o = c.bin(Op::Ult, x, y);
                let z = c.c(w, 0);
                c.ite(o, z, s)
            }
            K::UMax => {
                let l = c.bin(Op::Ult, x, y);
                c.ite(l, y, x)
            }
            K::UMin => {
                let l = c.bin(Op::Ult, x, y);
                c.ite(l, x, y)
            }
            K::SMax => {
                let l = c.bin(Op::Slt, x, y);
                c.ite(l, y, x)
            }
            K::SMin => {
                let l = c.bin(Op::Slt, x, y);
                c.ite(l, x, y)
            }
            K::Abs => {
                let z = c.c(w, 0);
                let l = c.bin(Op::Slt, x, z);
                let n = c.bin(Op::Sub, z, x);
                c.ite(l, n, x)
            }
            K::Ctlz => c.ctlz(x),
            K::Cttz => c.cttz(x),
            K::Ctpop => c.ctpop(x),
            K::Bswap => {
                let nb = w / 8;
                let mut e = c.extract(x, 0, 8);
                for i in 1..nb {
                    let b = c.extract(x, i * 8, 8);
                    e = c.concat(e, b);
                }
                e
            }
            K::Bitreverse => {
                let mut e = c.extract(x, 0, 1);
                for i in 1..w {
                    let b = c.extract(x, i, 1);
                    e = c.concat(e, b);
                }
                e
            }
            K::Fshl | K::Fshr => {
                let z = match &a[2] {
                    V::C(k) => c.c(w, *k),
                    V::S(e) => *e,
                    _ => return Err(Stop::Bad("fsh".into())),
                };
                if let Some(s) = c.is_const(z) {
                    let s = (s % w as u128) as u32;
                    if k == K::Fshl {
                        if s == 0 {
                            x
                        } else {
                            let h = c.extract(x, 0, w - s);
                            let l = c.extract(y, w - s, s);
                            c.concat(h, l)
                        }
                    } else if s == 0 {
                        y
                    } else {
                        let h = c.extract(x, 0, s);
                        let l = c.extract(y, s, w - s);
                        c.concat(h, l)
                    }
                } else {
                    let wk = c.c(w, w as u128);
                    let s = c.bin(Op::URem, z, wk);
                    let r = c.bin(Op::Sub, wk, s);
                    if k == K::Fshl {
                        let h = c.bin(Op::Shl, x, s);
                        let l = c.bin(Op::LShr, y, r);
                        c.bin(Op::Or, h, l)
                    } else {
                        let l = c.bin(Op::LShr, y, s);
                        let h = c.bin(Op::Shl, x, r);
                        c.bin(Op::Or, h, l)
                    }
                }
            }
            K::UCmp | K::SCmp => {
                let op = if k == K::UCmp { Op::Ult } else { Op::Slt };
                let l = c.bin(op, x, y);
                let g = c.bin(op, y, x);
                // the result width is the instruction's; i8 in practice
                let m1 = c.c(8, 255);
                let p1 = c.c(8, 1);
                let z = c.c(8, 0);
                let t = c.ite(g, p1, z);
                c.ite(l, m1, t)
            }
            _ => return Err(Stop::Bad(format!("intrinsic {k:?}"))),
        };
        Ok(self.v(r))
    }
}

pub enum Addr {
    C(u64),
    S(u64, E, Vec<u64>),
}

fn demangle_hint(n: &str, trace: &[String]) -> String {
    let loc = trace.iter().find(|t| !t.ends_with(" :0")).cloned().unwrap_or_default();
    format!("{n} at {loc}")
}
