//! The engine interface.  Under `cfg(sx_engine)` these are intrinsics of the symbolic executor; otherwise
//! they read a recorded assignment ("draws") and run the same harness natively.
#![allow(dead_code)]
#[cfg(not(sx_engine))]
use std::alloc::{GlobalAlloc, Layout, System};

#[cfg(sx_engine)]
mod imp {
    extern "C" {
        pub fn sx_sym(p: *mut u8, n: usize);
        pub fn sx_choose(n: usize) -> usize;
        pub fn sx_split(n: usize) -> usize;
        pub fn sx_assume(c: bool);
        pub fn sx_check(c: bool, p: *const u8, n: usize);
        pub fn sx_same(a: *const u8, b: *const u8, n: usize, p: *const u8, l: usize);
        pub fn sx_cover(id: u32);
        pub fn sx_out(p: *const u8, n: usize);
        pub fn sx_alloc(n: usize, align: usize) -> *mut u8;
        pub fn sx_free(p: *mut u8);
        pub fn sx_realloc(p: *mut u8, n: usize) -> *mut u8;
        pub fn sx_heap_live() -> usize;
        pub fn sx_heap_peak() -> usize;
        pub fn sx_heap_max() -> usize;
        pub fn sx_heap_reset();
        pub fn sx_allow_panic(on: bool);
    }
    pub struct A;
    unsafe impl std::alloc::GlobalAlloc for A {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            sx_alloc(l.size(), l.align())
        }
        unsafe fn dealloc(&self, p: *mut u8, _l: std::alloc::Layout) {
            sx_free(p)
        }
        unsafe fn realloc(&self, p: *mut u8, _l: std::alloc::Layout, n: usize) -> *mut u8 {
            sx_realloc(p, n)
        }
    }
    #[global_allocator]
    static GLOBAL: A = A;

    /// stand-in for `alloc::fmt::format::format_inner` (error message texts are not part of any property)
    #[no_mangle]
    pub extern "C" fn sx_empty_string(p: *mut String) {
        unsafe { p.write(String::new()) }
    }
    #[no_mangle]
    pub extern "C" fn sx_main() {
        crate::run()
    }
}

#[cfg(not(sx_engine))]
pub mod imp {
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    #[derive(Default)]
    pub struct Rec {
        pub draws: std::collections::VecDeque<Draw>,
        pub hash: u64,
        pub covers: Vec<u32>,
        pub fails: Vec<String>,
        pub mismatch: Option<String>,
    }
    pub enum Draw {
        C(usize),
        S(Vec<u8>),
    }
    pub struct AssumeFailed;
    thread_local! { pub static REC: RefCell<Rec> = RefCell::new(Rec::default()); }
    pub static LIVE: AtomicUsize = AtomicUsize::new(0);
    pub static PEAK: AtomicUsize = AtomicUsize::new(0);
    pub static MAXREQ: AtomicUsize = AtomicUsize::new(0);

    fn bad(m: &str) -> ! {
        REC.with(|r| r.borrow_mut().mismatch = Some(m.to_string()));
        std::panic::panic_any(AssumeFailed)
    }
    pub unsafe fn sx_sym(p: *mut u8, n: usize) {
        let d = REC.with(|r| r.borrow_mut().draws.pop_front());
        match d {
            Some(Draw::S(v)) if v.len() == n => std::ptr::copy_nonoverlapping(v.as_ptr(), p, n),
            _ => bad("draw: expected symbolic bytes"),
        }
    }
    pub unsafe fn sx_choose(n: usize) -> usize {
        let d = REC.with(|r| r.borrow_mut().draws.pop_front());
        match d {
            Some(Draw::C(v)) if v < n => v,
            _ => bad("draw: expected choice"),
        }
    }
    pub unsafe fn sx_split(n: usize) -> usize {
        sx_choose(n)
    }
    pub unsafe fn sx_assume(c: bool) {
        if !c {
            bad("assumption does not hold natively")
        }
    }
    pub unsafe fn sx_check(c: bool, p: *const u8, n: usize) {
        if !c {
            let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
            REC.with(|r| r.borrow_mut().fails.push(s));
        }
    }
    pub unsafe fn sx_same(a: *const u8, b: *const u8, n: usize, p: *const u8, l: usize) {
        let same = std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n);
        sx_check(same, p, l)
    }
    pub unsafe fn sx_cover(id: u32) {
        REC.with(|r| {
            let mut r = r.borrow_mut();
            if !r.covers.contains(&id) {
                r.covers.push(id)
            }
        });
    }
    pub unsafe fn sx_out(p: *const u8, n: usize) {
        let s = std::slice::from_raw_parts(p, n);
        REC.with(|r| {
            let mut r = r.borrow_mut();
            let mut h = r.hash;
            let mut f = |b: u8| {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            };
            for b in s {
                f(*b);
            }
            f(0xff);
            f((n & 255) as u8);
            r.hash = h;
        });
    }
    pub unsafe fn sx_heap_live() -> usize {
        LIVE.load(SeqCst)
    }
    pub unsafe fn sx_heap_peak() -> usize {
        PEAK.load(SeqCst)
    }
    pub unsafe fn sx_heap_max() -> usize {
        MAXREQ.load(SeqCst)
    }
    pub unsafe fn sx_heap_reset() {
        PEAK.store(LIVE.load(SeqCst), SeqCst);
        MAXREQ.store(0, SeqCst);
    }
    pub unsafe fn sx_allow_panic(_on: bool) {}

    pub struct A;
    /// a single request above this size is not served (same limit as in the engine)
    const HUGE: usize = 1 << 24;
    fn acc(n: usize) {
        if n > HUGE {
            use std::io::Write;
            let _ = std::io::stdout().write_all(b"allocation|0||single request above the limit\n");
            let _ = std::io::stdout().flush();
            std::process::exit(0);
        }
        let l = LIVE.fetch_add(n, SeqCst) + n;
        PEAK.fetch_max(l, SeqCst);
        MAXREQ.fetch_max(n, SeqCst);
    }
    unsafe impl super::GlobalAlloc for A {
        unsafe fn alloc(&self, l: super::Layout) -> *mut u8 {
            acc(l.size());
            super::System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: super::Layout) -> *mut u8 {
            acc(l.size());
            super::System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: super::Layout) {
            LIVE.fetch_sub(l.size(), SeqCst);
            super::System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: super::Layout, n: usize) -> *mut u8 {
            acc(n);
            LIVE.fetch_sub(l.size(), SeqCst);
            super::System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static GLOBAL: A = A;
}

pub const THOROUGH: bool = cfg!(sx_thorough);
/// VERIF_SEED of this run
pub const SEED: u32 = {
    let s = match option_env!("SX_SEED") {
        Some(s) => s.as_bytes(),
        None => b"1",
    };
    let mut r = 0u32;
    let mut i = 0;
    while i < s.len() {
        r = r.wrapping_mul(10).wrapping_add((s[i] & 15) as u32);
        i += 1;
    }
    r
};

// ------------------------------------------------------------------ generation modes
// 0: everything symbolic; 1: shapes (choices) deterministic, contents symbolic; 2: everything deterministic
struct Mode(std::cell::UnsafeCell<(u8, u32)>);
unsafe impl Sync for Mode {}
static MODE: Mode = Mode(std::cell::UnsafeCell::new((0, 0)));
pub fn mode(m: u8, seed: u32) {
    unsafe { *MODE.0.get() = (m, seed) }
}
fn md() -> u8 {
    unsafe { (*MODE.0.get()).0 }
}
/// keys of ordered collections: concrete in the larger (mode 1) shapes, where n symbolic keys have n! orders
pub fn key<T>(f: impl FnOnce() -> T) -> T {
    let m = md();
    if m == 1 {
        unsafe { (*MODE.0.get()).0 = 2 }
    }
    let r = f();
    unsafe { (*MODE.0.get()).0 = m }
    r
}
fn rnd() -> u32 {
    unsafe {
        let s = &mut (*MODE.0.get()).1;
        *s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        *s >> 10
    }
}

// ------------------------------------------------------------------ safe interface
fn fill(p: *mut u8, n: usize) {
    if n == 0 {
        return;
    }
    if md() == 2 {
        for i in 0..n {
            unsafe { *p.add(i) = rnd() as u8 }
        }
    } else {
        unsafe { imp::sx_sym(p, n) }
    }
}
/// n fresh symbolic bytes
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(v.as_mut_ptr(), n);
    v
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut v = [0u8; N];
    fill(v.as_mut_ptr(), N);
    v
}
pub fn u8() -> u8 {
    arr::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(arr())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(arr())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(arr())
}
pub fn usize() -> usize {
    usize::from_le_bytes(arr())
}
/// a symbolic boolean (no path split)
pub fn bool() -> bool {
    u8() & 1 == 1
}
/// all values 0..n, one path each
pub fn choose(n: usize) -> usize {
    if md() > 0 {
        return match n {
            0 | 1 => 0,
            2..=4 => rnd() as usize % n,
            _ => n - 1 - rnd() as usize % 3,
        };
    }
    unsafe { imp::sx_choose(n) }
}
/// like choose, but each value becomes an independent job (only before any symbolic draw)
pub fn split(n: usize) -> usize {
    unsafe { imp::sx_split(n) }
}
pub fn assume(c: bool) {
    unsafe { imp::sx_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, m: &'static str) {
    unsafe { imp::sx_check(c, m.as_ptr(), m.len()) }
}
/// check that two byte ranges are equal; afterwards the engine describes the first by the second's expressions
#[inline(never)]
pub fn same(a: &[u8], b: &[u8], m: &'static str) {
    check(a.len() == b.len(), m);
    if a.len() == b.len() {
        unsafe { imp::sx_same(a.as_ptr(), b.as_ptr(), a.len(), m.as_ptr(), m.len()) }
    }
}
pub fn cover(id: u32) {
    unsafe { imp::sx_cover(id) }
}
pub fn out(b: &[u8]) {
    unsafe { imp::sx_out(b.as_ptr(), b.len()) }
}
pub fn out_bool(b: bool) {
    out(&[b as u8])
}
pub fn heap_live() -> usize {
    unsafe { imp::sx_heap_live() }
}
pub fn heap_peak() -> usize {
    unsafe { imp::sx_heap_peak() }
}
pub fn heap_max() -> usize {
    unsafe { imp::sx_heap_max() }
}
pub fn heap_reset() {
    unsafe { imp::sx_heap_reset() }
}
pub fn allow_panic(on: bool) {
    unsafe { imp::sx_allow_panic(on) }
}
/// index below n, symbolic (constrained)
pub fn index(n: usize) -> usize {
    if md() == 2 {
        return rnd() as usize % n;
    }
    let x = u8() as usize;
    assume(x < n);
    x
}
