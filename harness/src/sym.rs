//! The interface between harnesses and the symbolic engine, and its native stand-in for replay.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, m: *const u8, n: usize);
        pub fn sym_reach(m: *const u8, n: usize);
        pub fn sym_budget(n: usize);
        pub fn sym_depth_limit(n: usize);
        pub fn sym_step_limit(n: usize);
        pub fn sym_hash_mode(n: usize);
        pub fn sym_concretize(n: usize) -> usize;
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    pub static mut INPUT: Vec<u8> = Vec::new();
    pub static mut POS: usize = 0;
    pub static LIVE: AtomicUsize = AtomicUsize::new(0);
    pub static BUDGET: AtomicUsize = AtomicUsize::new(0);
    extern "C" { fn _exit(c: i32) -> !; fn write(f: i32, p: *const u8, n: usize) -> isize; }
    pub struct A;
    unsafe fn charge(n: usize) {
        let l = LIVE.fetch_add(n, Relaxed) + n;
        let b = BUDGET.load(Relaxed);
        if b != 0 && l > b { let m = b"REPLAY memory budget exceeded\n"; write(1, m.as_ptr(), m.len()); _exit(42) }
    }
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { charge(l.size()); System.alloc(l) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { charge(l.size()); System.alloc_zeroed(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            LIVE.fetch_sub(l.size(), Relaxed);
            charge(n);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static G: A = A;
    #[allow(static_mut_refs)]
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
        for i in 0..n { *p.add(i) = INPUT.get(POS).copied().unwrap_or(0); POS += 1; }
    }
    pub unsafe fn sym_assume(c: bool) { if !c { println!("REPLAY assumption not met"); _exit(43) } }
    pub unsafe fn sym_assert(c: bool, m: *const u8, n: usize) {
        if !c { println!("REPLAY assertion failed: {}", String::from_utf8_lossy(std::slice::from_raw_parts(m, n))); _exit(42) }
    }
    pub unsafe fn sym_reach(m: *const u8, n: usize) { println!("REACH {}", String::from_utf8_lossy(std::slice::from_raw_parts(m, n))) }
    pub unsafe fn sym_budget(n: usize) { BUDGET.store(if n == 0 { 0 } else { LIVE.load(Relaxed) + n }, Relaxed) }
    pub unsafe fn sym_depth_limit(_: usize) {}
    pub unsafe fn sym_step_limit(_: usize) {}
    pub unsafe fn sym_hash_mode(_: usize) {}
    pub unsafe fn sym_concretize(n: usize) -> usize { n }
}

/// n unconstrained bytes
pub fn bytes(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; fill(&mut v); v }
pub fn fill(b: &mut [u8]) { unsafe { imp::sym_bytes(b.as_mut_ptr(), b.len()) } }
pub fn any_u8() -> u8 { let mut b = [0u8; 1]; fill(&mut b); b[0] }
pub fn any_u16() -> u16 { let mut b = [0u8; 2]; fill(&mut b); u16::from_be_bytes(b) }
pub fn any_u32() -> u32 { let mut b = [0u8; 4]; fill(&mut b); u32::from_be_bytes(b) }
pub fn any_u64() -> u64 { let mut b = [0u8; 8]; fill(&mut b); u64::from_be_bytes(b) }
/// a value in 0..n, n <= 256, explored one by one
pub fn pick(n: usize) -> usize { let v = any_u8() as usize; assume(v < n); conc(v) }
pub fn assume(c: bool) { unsafe { imp::sym_assume(c) } }
pub fn check(c: bool, m: &'static str) { unsafe { imp::sym_assert(c, m.as_ptr(), m.len()) } }
/// vacuity witness: this point must be reached by some input
pub fn reach(m: &'static str) { unsafe { imp::sym_reach(m.as_ptr(), m.len()) } }
pub fn budget(n: usize) { unsafe { imp::sym_budget(n) } }
pub fn depth_limit(n: usize) { unsafe { imp::sym_depth_limit(n) } }
pub fn step_limit(n: usize) { unsafe { imp::sym_step_limit(n) } }
/// a step limit that replay measures, too
pub fn work_limit(n: usize) {
    #[cfg(feature = "native")] measure(n);
    step_limit(n)
}
/// has callgrind count what runs under the limit that the environment selects, the first if none
#[cfg(feature = "native")]
fn measure(n: usize) {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static LIMITS: AtomicUsize = AtomicUsize::new(0);
    if n > 0 {
        println!("LIMIT {}", n);
        LIMITS.fetch_add(1, Ordering::Relaxed);
    }
    let wanted = std::env::var("MEASURE").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if LIMITS.load(Ordering::Relaxed) == wanted { toggle_collect(); }
}
/// callgrind's client request to start or stop counting; does nothing elsewhere
#[cfg(feature = "native")]
fn toggle_collect() {
    let request: [usize; 6] = [0x4354_0002, 0, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx", in("rax") &request as *const _ as usize, inout("rdx") 0usize => _, options(nostack));
    }
}
/// 0: every key hashes alike; 1: hash of the concrete bytes of the key
pub fn hash_mode(n: usize) { unsafe { imp::sym_hash_mode(n) } }
pub fn conc(n: usize) -> usize { unsafe { imp::sym_concretize(n) } }
