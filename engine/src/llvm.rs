//! Loads LLVM bitcode through the LLVM C API (dlopen of the toolchain's own libLLVM) into a compact IR.
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::Arc;

pub type P = *mut c_void;
extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
    fn dlerror() -> *const c_char;
}

pub fn open_lib(path: &str) -> P {
    let c = CString::new(path).unwrap();
    let h = unsafe { dlopen(c.as_ptr(), 2 | 8) };
    if h.is_null() {
        panic!("dlopen {path}: {:?}", unsafe { CStr::from_ptr(dlerror()) });
    }
    h
}
pub fn sym(h: P, name: &str) -> P {
    let c = CString::new(name).unwrap();
    let p = unsafe { dlsym(h, c.as_ptr()) };
    if p.is_null() {
        panic!("symbol {name} missing");
    }
    p
}

#[macro_export]
macro_rules! dyn_api {
    ($st:ident { $( fn $n:ident ( $($t:ty),* ) -> $r:ty ; )* }) => {
        #[allow(non_snake_case)]
        pub struct $st { $( pub $n: unsafe extern "C" fn($($t),*) -> $r, )* }
        impl $st {
            pub fn load(h: $crate::llvm::P) -> Self {
                unsafe { $st { $( $n: std::mem::transmute($crate::llvm::sym(h, stringify!($n))), )* } }
            }
        }
    };
}

dyn_api!(Api {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(*const c_char, *mut P, *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(P, P, *mut P) -> c_int;
    fn LLVMGetModuleDataLayout(P) -> P;
    fn LLVMGetFirstFunction(P) -> P;
    fn LLVMGetNextFunction(P) -> P;
    fn LLVMGetFirstGlobal(P) -> P;
    fn LLVMGetNextGlobal(P) -> P;
    fn LLVMGetFirstGlobalAlias(P) -> P;
    fn LLVMGetNextGlobalAlias(P) -> P;
    fn LLVMAliasGetAliasee(P) -> P;
    fn LLVMGetInitializer(P) -> P;
    fn LLVMIsGlobalConstant(P) -> c_int;
    fn LLVMGetValueName2(P, *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(P) -> c_int;
    fn LLVMCountParams(P) -> c_uint;
    fn LLVMGetParam(P, c_uint) -> P;
    fn LLVMGlobalGetValueType(P) -> P;
    fn LLVMGetReturnType(P) -> P;
    fn LLVMGetFirstBasicBlock(P) -> P;
    fn LLVMGetNextBasicBlock(P) -> P;
    fn LLVMGetFirstInstruction(P) -> P;
    fn LLVMGetNextInstruction(P) -> P;
    fn LLVMGetInstructionOpcode(P) -> c_int;
    fn LLVMGetNumOperands(P) -> c_int;
    fn LLVMGetOperand(P, c_uint) -> P;
    fn LLVMTypeOf(P) -> P;
    fn LLVMGetTypeKind(P) -> c_int;
    fn LLVMGetIntTypeWidth(P) -> c_uint;
    fn LLVMGetElementType(P) -> P;
    fn LLVMGetArrayLength2(P) -> u64;
    fn LLVMGetVectorSize(P) -> c_uint;
    fn LLVMCountStructElementTypes(P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(P, c_uint) -> P;
    fn LLVMOffsetOfElement(P, P, c_uint) -> u64;
    fn LLVMABISizeOfType(P, P) -> u64;
    fn LLVMABIAlignmentOfType(P, P) -> c_uint;
    fn LLVMIsOpaqueStruct(P) -> c_int;
    fn LLVMGetICmpPredicate(P) -> c_int;
    fn LLVMGetNumSuccessors(P) -> c_uint;
    fn LLVMGetSuccessor(P, c_uint) -> P;
    fn LLVMCountIncoming(P) -> c_uint;
    fn LLVMGetIncomingValue(P, c_uint) -> P;
    fn LLVMGetIncomingBlock(P, c_uint) -> P;
    fn LLVMGetSwitchDefaultDest(P) -> P;
    fn LLVMGetSwitchCaseValue(P, c_uint) -> P;
    fn LLVMGetCalledValue(P) -> P;
    fn LLVMGetNumArgOperands(P) -> c_uint;
    fn LLVMGetAllocatedType(P) -> P;
    fn LLVMGetAlignment(P) -> c_uint;
    fn LLVMGetGEPSourceElementType(P) -> P;
    fn LLVMGetNumIndices(P) -> c_uint;
    fn LLVMGetIndices(P) -> *const c_uint;
    fn LLVMGetNumMaskElements(P) -> c_uint;
    fn LLVMGetMaskValue(P, c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(P) -> c_int;
    fn LLVMIsAConstant(P) -> P;
    fn LLVMIsAConstantInt(P) -> P;
    fn LLVMIsAConstantFP(P) -> P;
    fn LLVMIsAConstantPointerNull(P) -> P;
    fn LLVMIsAUndefValue(P) -> P;
    fn LLVMIsAConstantAggregateZero(P) -> P;
    fn LLVMIsAConstantExpr(P) -> P;
    fn LLVMIsAConstantDataSequential(P) -> P;
    fn LLVMIsAConstantStruct(P) -> P;
    fn LLVMIsAConstantArray(P) -> P;
    fn LLVMIsAConstantVector(P) -> P;
    fn LLVMIsAGlobalVariable(P) -> P;
    fn LLVMIsAFunction(P) -> P;
    fn LLVMIsAGlobalAlias(P) -> P;
    fn LLVMIsAInlineAsm(P) -> P;
    fn LLVMIsAArgument(P) -> P;
    fn LLVMIsAInstruction(P) -> P;
    fn LLVMConstIntGetZExtValue(P) -> u64;
    fn LLVMConstRealGetDouble(P, *mut c_int) -> f64;
    fn LLVMGetConstOpcode(P) -> c_int;
    fn LLVMGetAggregateElement(P, c_uint) -> P;
    fn LLVMGetRawDataValues(P, *mut usize) -> *const c_char;
    fn LLVMPrintValueToString(P) -> *mut c_char;
    fn LLVMDisposeMessage(*mut c_char) -> ();
    fn LLVMGetDebugLocLine(P) -> c_uint;
    fn LLVMGetDebugLocFilename(P, *mut c_uint) -> *const c_char;
    fn LLVMGetDebugLocDirectory(P, *mut c_uint) -> *const c_char;
});

// ------------------------------------------------------------------ IR
#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(u32),
    A(Arc<Vec<V>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u32, u64),
    Vect(u32, u64),
    Struct(Vec<u32>, Vec<u64>),
    Other,
}
#[derive(Clone, Debug)]
pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
}

#[derive(Clone, Debug)]
pub enum Opd {
    K(V),
    R(u32),
}

#[derive(Clone, Debug)]
pub enum I {
    Ret(Option<Opd>),
    Jmp(u32),
    Br(Opd, u32, u32),
    Switch(Opd, u32, Vec<(u128, u32)>),
    Unreachable,
    Bin(u32, Opd, Opd),
    Alloca(u64, Opd, u64),
    Load(Opd),
    Store(Opd, Opd, u32),
    /// base, constant offset, (index, scale, index width)
    Gep(Opd, i64, Vec<(Opd, i64, u32)>),
    Trunc(Opd, u32),
    ZExt(Opd, u32),
    SExt(Opd, u32),
    /// value-preserving pointer/int casts: operand, source width
    Cast(Opd, u32),
    BitCast(Opd, u32),
    ICmp(i32, Opd, Opd, u32),
    /// callee (direct or value), args, argument types
    Call(Callee, Vec<Opd>, Vec<u32>),
    Select(Opd, Opd, Opd),
    ExtractElement(Opd, Opd),
    InsertElement(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i32>),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Opd, Vec<u32>),
    Nop,
    CmpXchg(Opd, Opd, Opd, u32),
    Rmw(i32, Opd, Opd),
    Freeze(Opd),
    Bad(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    V(Opd),
    Asm,
}
#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub ty: u32,
    pub line: u32,
    pub i: I,
}
#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: u32,
    pub inc: Vec<(u32, Opd)>,
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub ret: u32,
    pub decl: bool,
    pub blocks: Vec<Block>,
}
pub struct Global {
    pub name: String,
    pub size: u64,
    pub constant: bool,
    pub data: Arc<Vec<u32>>,
}
pub struct Prog {
    pub tys: Vec<TyInfo>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub fidx: HashMap<String, u32>,
    pub lines: Vec<(String, u32)>,
}

pub const NONE: u32 = u32::MAX;
/// object id of function number 0; its address is (FUNC_ID + index) << 32
pub const FUNC_ID: u64 = 0x6000_0000;
/// globals have object ids GLOBAL_ID ..
pub const GLOBAL_ID: u64 = 0x10_0000;

struct Ld {
    a: Api,
    dl: P,
    tys: Vec<TyInfo>,
    tymap: HashMap<P, u32>,
    gaddr: HashMap<P, u64>,
    fmap: HashMap<P, u32>,
    lines: Vec<(String, u32)>,
    linemap: HashMap<(String, u32), u32>,
    src_filter: Vec<String>,
}

unsafe fn cstr(p: *const c_char, n: usize) -> String {
    if p.is_null() {
        return String::new();
    }
    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
}

impl Ld {
    unsafe fn name(&self, v: P) -> String {
        let mut n = 0usize;
        let p = (self.a.LLVMGetValueName2)(v, &mut n);
        cstr(p, n)
    }
    unsafe fn ty(&mut self, t: P) -> u32 {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let k = (self.a.LLVMGetTypeKind)(t);
        let (ty, sized) = match k {
            0 => (Ty::Void, false),
            2 => (Ty::Int(32), true),
            3 => (Ty::Int(64), true),
            8 => (Ty::Int((self.a.LLVMGetIntTypeWidth)(t)), true),
            12 => (Ty::Ptr, true),
            10 => {
                if (self.a.LLVMIsOpaqueStruct)(t) != 0 {
                    (Ty::Other, false)
                } else {
                    let n = (self.a.LLVMCountStructElementTypes)(t);
                    let mut e = vec![];
                    let mut o = vec![];
                    for i in 0..n {
                        let et = (self.a.LLVMStructGetTypeAtIndex)(t, i);
                        e.push(self.ty(et));
                        o.push((self.a.LLVMOffsetOfElement)(self.dl, t, i));
                    }
                    (Ty::Struct(e, o), true)
                }
            }
            11 => {
                let e = (self.a.LLVMGetElementType)(t);
                let n = (self.a.LLVMGetArrayLength2)(t);
                (Ty::Arr(self.ty(e), n), true)
            }
            13 => {
                let e = (self.a.LLVMGetElementType)(t);
                let n = (self.a.LLVMGetVectorSize)(t) as u64;
                (Ty::Vect(self.ty(e), n), true)
            }
            _ => (Ty::Other, false),
        };
        let (size, align) = if sized {
            ((self.a.LLVMABISizeOfType)(self.dl, t), (self.a.LLVMABIAlignmentOfType)(self.dl, t) as u64)
        } else {
            (0, 1)
        };
        let i = self.tys.len() as u32;
        self.tys.push(TyInfo { ty, size, align });
        self.tymap.insert(t, i);
        i
    }
    unsafe fn print(&self, v: P) -> String {
        let p = (self.a.LLVMPrintValueToString)(v);
        let s = CStr::from_ptr(p).to_string_lossy().into_owned();
        (self.a.LLVMDisposeMessage)(p);
        s
    }
    fn zero(&self, t: u32) -> V {
        match &self.tys[t as usize].ty {
            Ty::Arr(e, n) | Ty::Vect(e, n) => {
                let z = self.zero(*e);
                V::A(Arc::new(vec![z; *n as usize]))
            }
            Ty::Struct(es, _) => V::A(Arc::new(es.iter().map(|e| self.zero(*e)).collect())),
            Ty::Int(w) if *w > 128 => V::A(Arc::new(vec![V::C(0); (*w as usize + 7) / 8])),
            _ => V::C(0),
        }
    }
    unsafe fn konst(&mut self, v: P) -> Result<V, String> {
        let a = &self.a;
        if let Some(&g) = self.gaddr.get(&v) {
            return Ok(V::C(g as u128));
        }
        if !(a.LLVMIsAGlobalAlias)(v).is_null() {
            let t = (a.LLVMAliasGetAliasee)(v);
            return self.konst(t);
        }
        if !(a.LLVMIsAConstantInt)(v).is_null() {
            let t = (a.LLVMTypeOf)(v);
            if (a.LLVMGetTypeKind)(t) == 13 {
                // splat
                let n = (a.LLVMGetVectorSize)(t);
                let mut o = vec![];
                for i in 0..n {
                    let e = (self.a.LLVMGetAggregateElement)(v, i);
                    o.push(self.konst(e)?);
                }
                return Ok(V::A(Arc::new(o)));
            }
            let w = (a.LLVMGetIntTypeWidth)(t);
            if w <= 64 {
                return Ok(V::C((a.LLVMConstIntGetZExtValue)(v) as u128));
            }
            let s = self.print(v);
            let tok = s.split_whitespace().nth(1).ok_or("int print")?.to_string();
            if w <= 128 {
                let k = if let Some(neg) = tok.strip_prefix('-') {
                    (neg.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg()
                } else {
                    tok.parse::<u128>().map_err(|e| e.to_string())?
                };
                return Ok(V::C(k & crate::expr::mask(w)));
            }
            // wide constant: decimal to bytes
            let neg = tok.starts_with('-');
            let digits = tok.trim_start_matches('-');
            let nb = (w as usize + 7) / 8;
            let mut by = vec![0u32; nb];
            for d in digits.bytes() {
                let mut c = (d - b'0') as u32;
                for x in by.iter_mut() {
                    let t = *x * 10 + c;
                    *x = t & 255;
                    c = t >> 8;
                }
            }
            if neg {
                let mut c = 1u32;
                for x in by.iter_mut() {
                    let t = (*x ^ 255) + c;
                    *x = t & 255;
                    c = t >> 8;
                }
            }
            return Ok(V::A(Arc::new(by.into_iter().map(|b| V::C(b as u128)).collect())));
        }
        if !(a.LLVMIsAConstantFP)(v).is_null() {
            let mut l = 0;
            let d = (a.LLVMConstRealGetDouble)(v, &mut l);
            let t = (a.LLVMTypeOf)(v);
            return match (a.LLVMGetTypeKind)(t) {
                2 => Ok(V::C((d as f32).to_bits() as u128)),
                3 => Ok(V::C(d.to_bits() as u128)),
                _ => Err("float kind".into()),
            };
        }
        let tp = (a.LLVMTypeOf)(v);
        if !(a.LLVMIsAConstantPointerNull)(v).is_null()
            || !(a.LLVMIsAUndefValue)(v).is_null()
            || !(a.LLVMIsAConstantAggregateZero)(v).is_null()
        {
            let t = self.ty(tp);
            return Ok(self.zero(t));
        }
        if !(a.LLVMIsAConstantDataSequential)(v).is_null()
            || !(a.LLVMIsAConstantStruct)(v).is_null()
            || !(a.LLVMIsAConstantArray)(v).is_null()
            || !(a.LLVMIsAConstantVector)(v).is_null()
        {
            let t = self.ty(tp);
            let n = match &self.tys[t as usize].ty {
                Ty::Arr(_, n) | Ty::Vect(_, n) => *n,
                Ty::Struct(e, _) => e.len() as u64,
                _ => return Err("agg const".into()),
            };
            let mut o = vec![];
            for i in 0..n {
                let e = (self.a.LLVMGetAggregateElement)(v, i as c_uint);
                o.push(self.konst(e)?);
            }
            return Ok(V::A(Arc::new(o)));
        }
        if !(a.LLVMIsAConstantExpr)(v).is_null() {
            let op = (a.LLVMGetConstOpcode)(v);
            let w = match (a.LLVMGetTypeKind)(tp) {
                8 => (a.LLVMGetIntTypeWidth)(tp),
                12 => 64,
                _ => return Err(format!("constexpr type: {}", self.print(v))),
            };
            let m = crate::expr::mask(w);
            let o0 = (a.LLVMGetOperand)(v, 0);
            let get = |s: &mut Self, o: P| -> Result<u128, String> {
                match s.konst(o)? {
                    V::C(k) => Ok(k),
                    _ => Err("constexpr operand".into()),
                }
            };
            match op {
                30 | 31 | 39 | 40 | 41 | 60 | 69 => {
                    return Ok(V::C(get(self, o0)? & m));
                }
                8 | 10 | 25 | 12 => {
                    let x = get(self, o0)?;
                    let o1 = (self.a.LLVMGetOperand)(v, 1);
                    let y = get(self, o1)?;
                    let r = match op {
                        8 => x.wrapping_add(y),
                        10 => x.wrapping_sub(y),
                        12 => x.wrapping_mul(y),
                        _ => x ^ y,
                    };
                    return Ok(V::C(r & m));
                }
                29 => {
                    let (base, off, dynx) = self.gep(v, &mut |s, o| Ok(Opd::K(s.konst(o)?)))?;
                    if !dynx.is_empty() {
                        return Err("gep constexpr".into());
                    }
                    match base {
                        Opd::K(V::C(b)) => return Ok(V::C(b.wrapping_add(off as i128 as u128) & m)),
                        _ => return Err("gep base".into()),
                    }
                }
                _ => return Err(format!("constexpr opcode {op}: {}", self.print(v))),
            }
        }
        Err(format!("constant: {}", self.print(v)))
    }
    unsafe fn gep(
        &mut self,
        v: P,
        f: &mut dyn FnMut(&mut Self, P) -> Result<Opd, String>,
    ) -> Result<(Opd, i64, Vec<(Opd, i64, u32)>), String> {
        let n = (self.a.LLVMGetNumOperands)(v) as c_uint;
        let b = (self.a.LLVMGetOperand)(v, 0);
        let base = f(self, b)?;
        let st = (self.a.LLVMGetGEPSourceElementType)(v);
        let mut t = self.ty(st);
        let mut off = 0i64;
        let mut dynx = vec![];
        for i in 1..n {
            let o = (self.a.LLVMGetOperand)(v, i);
            let ot = (self.a.LLVMTypeOf)(o);
            if (self.a.LLVMGetTypeKind)(ot) != 8 {
                return Err("vector gep".into());
            }
            let iw = (self.a.LLVMGetIntTypeWidth)(ot);
            let x = f(self, o)?;
            let scale: i64;
            if i == 1 {
                scale = self.tys[t as usize].size as i64;
            } else {
                match self.tys[t as usize].ty.clone() {
                    Ty::Struct(es, os) => {
                        let k = match x {
                            Opd::K(V::C(k)) => k as usize,
                            _ => return Err("struct gep index".into()),
                        };
                        off += os[k] as i64;
                        t = es[k];
                        continue;
                    }
                    Ty::Arr(e, _) | Ty::Vect(e, _) => {
                        t = e;
                        scale = self.tys[e as usize].size as i64;
                    }
                    _ => return Err("gep type".into()),
                }
            }
            match x {
                Opd::K(V::C(k)) => {
                    let s = crate::expr::sx(k, iw) as i64;
                    off = off.wrapping_add(s.wrapping_mul(scale));
                }
                x => dynx.push((x, scale, iw)),
            }
        }
        Ok((base, off, dynx))
    }
    fn flatten(&self, v: &V, t: u32, out: &mut [u32]) {
        let ti = &self.tys[t as usize];
        match (&ti.ty, v) {
            (Ty::Struct(es, os), V::A(xs)) => {
                for i in 0..es.len() {
                    self.flatten(&xs[i], es[i], &mut out[os[i] as usize..]);
                }
            }
            (Ty::Arr(e, n), V::A(xs)) | (Ty::Vect(e, n), V::A(xs)) => {
                let s = self.tys[*e as usize].size as usize;
                for i in 0..*n as usize {
                    self.flatten(&xs[i], *e, &mut out[i * s..]);
                }
            }
            (Ty::Int(_), V::A(xs)) => {
                for (i, x) in xs.iter().enumerate() {
                    if let V::C(k) = x {
                        out[i] = *k as u32;
                    }
                }
            }
            (_, V::C(k)) => {
                for i in 0..(ti.size.min(16)) as usize {
                    out[i] = ((k >> (8 * i)) & 255) as u32;
                }
            }
            _ => panic!("flatten"),
        }
    }
    unsafe fn line(&mut self, inst: P) -> u32 {
        let l = (self.a.LLVMGetDebugLocLine)(inst);
        if l == 0 {
            return 0;
        }
        let mut n = 0;
        let p = (self.a.LLVMGetDebugLocFilename)(inst, &mut n);
        let f = cstr(p, n as usize);
        let full = if f.starts_with('/') {
            f
        } else {
            let mut n = 0;
            let p = (self.a.LLVMGetDebugLocDirectory)(inst, &mut n);
            format!("{}/{}", cstr(p, n as usize), f)
        };
        if !self.src_filter.iter().any(|s| full.contains(s.as_str())) {
            return 0;
        }
        let key = (full, l);
        if let Some(&i) = self.linemap.get(&key) {
            return i;
        }
        let i = self.lines.len() as u32;
        self.lines.push(key.clone());
        self.linemap.insert(key, i);
        i
    }
}

pub fn load(libllvm: &str, bc: &str, src_filter: Vec<String>) -> Result<Prog, String> {
    unsafe {
        let a = Api::load(open_lib(libllvm));
        let ctx = (a.LLVMContextCreate)();
        let mut buf: P = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        let path = CString::new(bc).unwrap();
        if (a.LLVMCreateMemoryBufferWithContentsOfFile)(path.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(format!("read {bc}"));
        }
        let mut m: P = std::ptr::null_mut();
        if (a.LLVMParseBitcodeInContext2)(ctx, buf, &mut m) != 0 {
            return Err("parse bitcode".into());
        }
        let dl = (a.LLVMGetModuleDataLayout)(m);
        let mut ld = Ld {
            a,
            dl,
            tys: vec![],
            tymap: HashMap::new(),
            gaddr: HashMap::new(),
            fmap: HashMap::new(),
            lines: vec![(String::new(), 0)],
            linemap: HashMap::new(),
            src_filter,
        };
        // addresses first
        let mut fs = vec![];
        let mut f = (ld.a.LLVMGetFirstFunction)(m);
        while !f.is_null() {
            ld.fmap.insert(f, fs.len() as u32);
            ld.gaddr.insert(f, (FUNC_ID + fs.len() as u64) << 32);
            fs.push(f);
            f = (ld.a.LLVMGetNextFunction)(f);
        }
        let mut gs = vec![];
        let mut g = (ld.a.LLVMGetFirstGlobal)(m);
        while !g.is_null() {
            ld.gaddr.insert(g, (GLOBAL_ID + gs.len() as u64) << 32);
            gs.push(g);
            g = (ld.a.LLVMGetNextGlobal)(g);
        }
        let mut globals = vec![];
        for &g in &gs {
            let name = ld.name(g);
            let vt = (ld.a.LLVMGlobalGetValueType)(g);
            let t = ld.ty(vt);
            let size = ld.tys[t as usize].size;
            let mut data = vec![0u32; size as usize];
            let constant = (ld.a.LLVMIsGlobalConstant)(g) != 0;
            if (ld.a.LLVMIsDeclaration)(g) == 0 {
                let init = (ld.a.LLVMGetInitializer)(g);
                if !init.is_null() {
                    match ld.konst(init) {
                        Ok(v) => ld.flatten(&v, t, &mut data),
                        Err(e) => return Err(format!("global {name}: {e}")),
                    }
                }
            } else if data.len() < 64 {
                data.resize(64, 0);
            }
            globals.push(Global { name, size: data.len() as u64, constant, data: Arc::new(data) });
        }
        let mut funcs = vec![];
        for &f in &fs {
            let name = ld.name(f);
            let decl = (ld.a.LLVMIsDeclaration)(f) != 0;
            let ft = (ld.a.LLVMGlobalGetValueType)(f);
            let rt = (ld.a.LLVMGetReturnType)(ft);
            let ret = ld.ty(rt);
            let nparams = (ld.a.LLVMCountParams)(f);
            let mut func = Func { name, nparams, nregs: nparams, ret, decl, blocks: vec![] };
            if !decl {
                load_body(&mut ld, f, &mut func);
            }
            funcs.push(func);
        }
        let fidx = funcs.iter().enumerate().map(|(i, f)| (f.name.clone(), i as u32)).collect();
        Ok(Prog { tys: ld.tys, funcs, globals, fidx, lines: ld.lines })
    }
}

unsafe fn load_body(ld: &mut Ld, f: P, func: &mut Func) {
    let mut bmap: HashMap<P, u32> = HashMap::new();
    let mut rmap: HashMap<P, u32> = HashMap::new();
    for i in 0..func.nparams {
        let p = (ld.a.LLVMGetParam)(f, i);
        rmap.insert(p, i);
    }
    let mut bs = vec![];
    let mut b = (ld.a.LLVMGetFirstBasicBlock)(f);
    while !b.is_null() {
        bmap.insert(b, bs.len() as u32);
        bs.push(b);
        let mut i = (ld.a.LLVMGetFirstInstruction)(b);
        while !i.is_null() {
            let t = (ld.a.LLVMTypeOf)(i);
            if (ld.a.LLVMGetTypeKind)(t) != 0 {
                rmap.insert(i, func.nregs);
                func.nregs += 1;
            }
            i = (ld.a.LLVMGetNextInstruction)(i);
        }
        b = (ld.a.LLVMGetNextBasicBlock)(b);
    }
    for &b in &bs {
        let mut blk = Block::default();
        let mut i = (ld.a.LLVMGetFirstInstruction)(b);
        while !i.is_null() {
            let opc = (ld.a.LLVMGetInstructionOpcode)(i);
            let ty = (ld.a.LLVMTypeOf)(i);
            let ty = ld.ty(ty);
            let dst = rmap.get(&i).copied().unwrap_or(NONE);
            let line = ld.line(i);
            let rm = &rmap;
            let mut opd = move |ld: &mut Ld, v: P| -> Result<Opd, String> {
                if let Some(&r) = rm.get(&v) {
                    return Ok(Opd::R(r));
                }
                if (ld.a.LLVMIsAConstant)(v).is_null() {
                    return Err(format!("operand: {}", ld.print(v)));
                }
                Ok(Opd::K(ld.konst(v)?))
            };
            let r: Result<I, String> = (|| {
                let op = |ld: &Ld, n: c_uint| (ld.a.LLVMGetOperand)(i, n);
                macro_rules! o {
                    ($n:expr) => {{
                        let x = op(ld, $n);
                        opd(ld, x)?
                    }};
                }
                macro_rules! oty {
                    ($n:expr) => {{
                        let x = op(ld, $n);
                        let t = (ld.a.LLVMTypeOf)(x);
                        ld.ty(t)
                    }};
                }
                Ok(match opc {
                    1 => {
                        if (ld.a.LLVMGetNumOperands)(i) == 0 {
                            I::Ret(None)
                        } else {
                            I::Ret(Some(o!(0)))
                        }
                    }
                    2 | 70 | 71 => {
                        if (ld.a.LLVMGetNumSuccessors)(i) == 1 {
                            I::Jmp(bmap[&(ld.a.LLVMGetSuccessor)(i, 0)])
                        } else {
                            I::Br(o!(0), bmap[&(ld.a.LLVMGetSuccessor)(i, 0)], bmap[&(ld.a.LLVMGetSuccessor)(i, 1)])
                        }
                    }
                    3 => {
                        let d = bmap[&(ld.a.LLVMGetSwitchDefaultDest)(i)];
                        let ns = (ld.a.LLVMGetNumSuccessors)(i);
                        let mut cs = vec![];
                        for k in 1..ns {
                            let cv = (ld.a.LLVMGetSwitchCaseValue)(i, k);
                            let kv = match ld.konst(cv)? {
                                V::C(k) => k,
                                _ => return Err("switch".into()),
                            };
                            cs.push((kv, bmap[&(ld.a.LLVMGetSuccessor)(i, k)]));
                        }
                        I::Switch(o!(0), d, cs)
                    }
                    7 => I::Unreachable,
                    8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 => I::Bin(opc as u32, o!(0), o!(1)),
                    26 => {
                        let t = (ld.a.LLVMGetAllocatedType)(i);
                        let t = ld.ty(t);
                        I::Alloca(ld.tys[t as usize].size, o!(0), (ld.a.LLVMGetAlignment)(i) as u64)
                    }
                    27 => I::Load(o!(0)),
                    28 => I::Store(o!(0), o!(1), oty!(0)),
                    29 => {
                        let (b, off, d) = ld.gep(i, &mut |ld, v| opd(ld, v))?;
                        I::Gep(b, off, d)
                    }
                    30 => I::Trunc(o!(0), oty!(0)),
                    31 => I::ZExt(o!(0), oty!(0)),
                    32 => I::SExt(o!(0), oty!(0)),
                    39 | 40 | 60 | 69 => I::Cast(o!(0), oty!(0)),
                    41 => I::BitCast(o!(0), oty!(0)),
                    42 => I::ICmp((ld.a.LLVMGetICmpPredicate)(i), o!(0), o!(1), oty!(0)),
                    44 => {
                        let n = (ld.a.LLVMCountIncoming)(i);
                        let mut inc = vec![];
                        for k in 0..n {
                            let v = (ld.a.LLVMGetIncomingValue)(i, k);
                            let b = (ld.a.LLVMGetIncomingBlock)(i, k);
                            inc.push((bmap[&b], opd(ld, v)?));
                        }
                        blk.phis.push(Phi { dst, ty, inc });
                        I::Nop
                    }
                    // (an invoke is a call followed by a jump to its normal destination: panics end a path)
                    45 | 5 => {
                        let c = (ld.a.LLVMGetCalledValue)(i);
                        let n = (ld.a.LLVMGetNumArgOperands)(i);
                        let callee = if !(ld.a.LLVMIsAInlineAsm)(c).is_null() {
                            Callee::Asm
                        } else if let Some(&fi) = ld.fmap.get(&c) {
                            Callee::F(fi)
                        } else {
                            Callee::V(opd(ld, c)?)
                        };
                        let mut skip = false;
                        if let Callee::F(_) = callee {
                            let nm = ld.name(c);
                            if nm.starts_with("llvm.dbg.")
                                || nm.starts_with("llvm.lifetime.")
                                || nm.starts_with("llvm.assume")
                                || nm.starts_with("llvm.experimental.noalias")
                                || nm.starts_with("llvm.donothing")
                            {
                                skip = true;
                            }
                        }
                        if skip {
                            I::Nop
                        } else {
                            let mut args = vec![];
                            let mut tys = vec![];
                            for k in 0..n {
                                tys.push(oty!(k));
                                args.push(o!(k));
                            }
                            I::Call(callee, args, tys)
                        }
                    }
                    46 => I::Select(o!(0), o!(1), o!(2)),
                    50 => I::ExtractElement(o!(0), o!(1)),
                    51 => I::InsertElement(o!(0), o!(1), o!(2)),
                    52 => {
                        let n = (ld.a.LLVMGetNumMaskElements)(i);
                        let mk = (0..n).map(|k| (ld.a.LLVMGetMaskValue)(i, k)).collect();
                        I::Shuffle(o!(0), o!(1), mk)
                    }
                    53 | 54 => {
                        let n = (ld.a.LLVMGetNumIndices)(i) as usize;
                        let ix = std::slice::from_raw_parts((ld.a.LLVMGetIndices)(i), n).to_vec();
                        if opc == 53 {
                            I::ExtractValue(o!(0), ix)
                        } else {
                            I::InsertValue(o!(0), o!(1), ix)
                        }
                    }
                    55 => I::Nop,
                    56 => I::CmpXchg(o!(0), o!(1), o!(2), oty!(1)),
                    57 => I::Rmw((ld.a.LLVMGetAtomicRMWBinOp)(i), o!(0), o!(1)),
                    68 => I::Freeze(o!(0)),
                    _ => return Err(format!("opcode {opc}: {}", ld.print(i))),
                })
            })();
            let inst = match r {
                Ok(I::Nop) => None,
                Ok(x) => Some(x),
                Err(e) => Some(I::Bad(e)),
            };
            if let Some(x) = inst {
                blk.insts.push(Inst { dst, ty, line, i: x });
            }
            if opc == 5 {
                let to = bmap[&(ld.a.LLVMGetSuccessor)(i, 0)];
                blk.insts.push(Inst { dst: NONE, ty, line, i: I::Jmp(to) });
            }
            i = (ld.a.LLVMGetNextInstruction)(i);
        }
        func.blocks.push(blk);
    }
}
