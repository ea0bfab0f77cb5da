//! The interface between harnesses and the executor (cfg rsym) or the native replay.
#![allow(dead_code)]

#[cfg(rsym)]
extern "C" {
    fn rs_u8() -> u8;
    fn rs_u32() -> u32;
    fn rs_u64() -> u64;
    fn rs_assume(c: bool);
    fn rs_assert(c: bool, id: u32);
    fn rs_reach(id: u32);
    fn rs_conc(v: u64) -> u64;
    fn rs_havoc(p: *const u8, n: usize, now: u64) -> u64;
    fn rs_note(p: *const u8, n: usize);
    fn rs_fs_add(p: *const u8, n: usize, d: *const u8, m: usize, kind: u32);
    fn rs_fs_mode(mask: u64, budget: u64);
    fn rs_fs_get(p: *const u8, n: usize, buf: *mut u8, cap: usize) -> u64;
    fn rs_fs_count(what: u32) -> u64;
    fn rs_depth_reset();
    fn rs_depth_peak() -> u64;
    fn rs_heap_live() -> i64;
    fn rs_step_limit(steps: u64, depth: u64);
    fn rs_spawn(f: extern "C" fn(usize), arg: usize, max_switches: u64);
    fn rs_join();
}

#[cfg(rsym)]
mod imp {
    use super::*;
    pub fn u8() -> u8 { unsafe { rs_u8() } }
    pub fn u32() -> u32 { unsafe { rs_u32() } }
    pub fn u64() -> u64 { unsafe { rs_u64() } }
    pub fn assume(c: bool) { unsafe { rs_assume(c) } }
    pub fn check(c: bool, id: u32) { unsafe { rs_assert(c, id) } }
    pub fn reach(id: u32) { unsafe { rs_reach(id) } }
    /// a counter of the crate under test, now at `now`, goes on from any value below 2^40 (where there is a static of that name)
    pub fn havoc(name: &str, now: u64) { unsafe { let n = rs_havoc(name.as_ptr(), name.len(), now); reach(1000 + n as u32); } }
    /// one of n <= 256 alternatives: a symbolic byte
    pub fn choice(n: u32) -> u32 { let b = u8() as u32; assume(b < n); b }
    pub fn conc(v: u64) -> u64 { unsafe { rs_conc(v) } }
    pub fn note(b: &[u8]) { unsafe { rs_note(b.as_ptr(), b.len()) } }
    pub fn depth_reset() { unsafe { rs_depth_reset() } }
    pub fn depth_peak() -> u64 { unsafe { rs_depth_peak() } }
    pub fn heap_live() -> i64 { unsafe { rs_heap_live() } }
    pub fn limits(steps: u64, depth: u64) { unsafe { rs_step_limit(steps, depth) } }
    pub fn fs_base() -> String { String::from("/v") }
    pub fn fs_add(p: &str, d: &[u8], kind: u32) { unsafe { rs_fs_add(p.as_ptr(), p.len(), d.as_ptr(), d.len(), kind) } }
    pub fn fs_faults(mask: u64, budget: u64) { unsafe { rs_fs_mode(mask, budget) } }
    pub fn fs_get(p: &str) -> Option<Vec<u8>> {
        let mut v = vec![0u8; 1 << 19];
        let n = unsafe { rs_fs_get(p.as_ptr(), p.len(), v.as_mut_ptr(), v.len()) };
        if n == u64::MAX { return None; }
        v.truncate(n as usize);
        Some(v)
    }
    pub fn fs_opens() -> u64 { unsafe { rs_fs_count(0) } }
    pub fn fs_open_fds() -> u64 { unsafe { rs_fs_count(1) } }
    pub fn fs_hard() -> u64 { unsafe { rs_fs_count(2) } }
    pub fn is_sym() -> bool { true }
    pub fn run_threads(f: extern "C" fn(usize), args: &[usize], switches: u64) {
        unsafe { for &a in args { rs_spawn(f, a, switches); } rs_join(); }
    }
}

#[cfg(not(rsym))]
pub mod imp {
    use std::cell::RefCell;
    use std::sync::Mutex;
    pub struct Replay { pub vals: Vec<(u32, u64)>, pub pos: usize, pub base: String }
    pub static REPLAY: Mutex<Replay> = Mutex::new(Replay { vals: vec![], pos: 0, base: String::new() });
    thread_local! { static _X: RefCell<u8> = RefCell::new(0); }
    pub fn next(w: u32) -> u64 {
        let mut r = REPLAY.lock().unwrap();
        let p = r.pos;
        r.pos += 1;
        match r.vals.get(p) { Some(&(ww, v)) => { if ww != w { println!("REPLAY-DESYNC at {} width {} expected {}", p, ww, w); std::process::exit(78); } v } None => 0 }
    }
    pub fn u8() -> u8 { next(8) as u8 }
    pub fn u32() -> u32 { next(32) as u32 }
    pub fn u64() -> u64 { next(64) }
    pub fn assume(c: bool) { if !c { println!("ASSUME-FALSE"); std::process::exit(77); } }
    pub fn check(c: bool, id: u32) { if !c { println!("ASSERT-FAILED {}", id); std::process::exit(10); } }
    pub fn reach(_id: u32) {}
    pub fn havoc(_name: &str, _now: u64) { next(64); }
    pub fn choice(n: u32) -> u32 { let b = u8() as u32; assume(b < n); b }
    pub fn conc(v: u64) -> u64 { v }
    pub fn note(b: &[u8]) { let h: String = b.iter().map(|x| format!("{:02x}", x)).collect(); println!("NOTE {}", h); }
    pub fn depth_reset() {}
    pub fn depth_peak() -> u64 { 0 }
    pub fn heap_live() -> i64 { super::LIVE.load(std::sync::atomic::Ordering::SeqCst) }
    pub fn limits(_s: u64, _d: u64) {}
    pub fn fs_base() -> String { REPLAY.lock().unwrap().base.clone() }
    fn real(p: &str) -> String { p.to_string() }
    pub fn fs_add(p: &str, d: &[u8], kind: u32) {
        let p = real(p);
        assert!(p.starts_with(&fs_base()), "scratch path");
        if let Some(par) = std::path::Path::new(&p).parent() { std::fs::create_dir_all(par).unwrap(); }
        match kind { 0 => {
            std::fs::write(&p, d).unwrap();
            // as in the symbolic runs, times tell nothing about what a file holds: two versions may have the same one
            if let Ok(f) = std::fs::OpenOptions::new().write(true).open(&p) { let _ = f.set_modified(std::time::UNIX_EPOCH); }
        } 1 => std::fs::create_dir_all(&p).unwrap(), _ => { let _ = std::fs::remove_file(&p); std::os::unix::fs::symlink(std::str::from_utf8(d).unwrap(), &p).unwrap() } }
    }
    pub fn fs_faults(mask: u64, budget: u64) { super::faults::arm(mask, budget) }
    pub fn fs_get(p: &str) -> Option<Vec<u8>> { std::fs::read(real(p)).ok() }
    pub fn fs_opens() -> u64 { super::faults::opens() }
    pub fn fs_open_fds() -> u64 { super::faults::open_fds() }
    pub fn fs_hard() -> u64 { super::faults::hard() }
    pub fn is_sym() -> bool { false }
    pub fn run_threads(f: extern "C" fn(usize), args: &[usize], _switches: u64) {
        // consume the schedule's values; the native run repeats the threads freely many times instead
        let hs: Vec<_> = args.iter().map(|&a| std::thread::spawn(move || f(a))).collect();
        for h in hs { h.join().unwrap(); }
    }
}
pub use imp::*;

/// live heap blocks (native)
#[cfg(not(rsym))]
pub static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
#[cfg(not(rsym))]
pub struct Counting;
#[cfg(not(rsym))]
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { std::alloc::System.realloc(p, l, n) }
}
#[cfg(not(rsym))]
#[global_allocator]
static GA: Counting = Counting;

/// libc entry points interposed in the native replay, so that the faults chosen by the solver happen there too
#[cfg(not(rsym))]
pub mod faults {
    use std::os::raw::{c_char, c_int, c_void};
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    static MASK: AtomicU64 = AtomicU64::new(0);
    static BUDGET: AtomicU64 = AtomicU64::new(0);
    static OPENS: AtomicU64 = AtomicU64::new(0);
    static CLOSES: AtomicU64 = AtomicU64::new(0);
    static HARD: AtomicU64 = AtomicU64::new(0);
    pub fn hard() -> u64 { HARD.load(SeqCst) }
    pub fn arm(m: u64, b: u64) { MASK.store(m, SeqCst); BUDGET.store(b, SeqCst); }
    pub fn opens() -> u64 { OPENS.load(SeqCst) }
    pub fn open_fds() -> u64 { OPENS.load(SeqCst).wrapping_sub(CLOSES.load(SeqCst)) }
    extern "C" { fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void; fn __errno_location() -> *mut c_int; }
    unsafe fn real(n: &'static [u8]) -> *mut c_void { dlsym(-1isize as *mut c_void, n.as_ptr() as *const c_char) }
    unsafe fn fail(e: c_int) { *__errno_location() = e; }
    const V: u64 = 1 << 32;
    const LEN: [usize; 3] = [2, 5, 9];
    fn pick(cand: &[u64]) -> u64 {
        let m = MASK.load(SeqCst);
        if m == 0 || BUDGET.load(SeqCst) == 0 { return 0; }
        let o: Vec<u64> = cand.iter().copied().filter(|c| m & c & 0xffff_ffff != 0).collect();
        if o.is_empty() { return 0; }
        let k = super::imp::next(32) as usize;
        if k == 0 { return 0; }
        BUDGET.fetch_sub(1, SeqCst);
        let f = o.get(k - 1).copied().unwrap_or(0);
        if f & (1 | 2 | 8 | 16 | 1024 | 2048 | 4096) == 0 { HARD.fetch_add(if f == 8192 { 1 << 16 } else { 1 }, SeqCst); }
        f
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
        let f: extern "C" fn(c_int, *mut c_void, usize) -> isize = std::mem::transmute(real(b"read\0"));
        if fd <= 2 { return f(fd, b, n); }
        match pick(&[1, 2, 4, 1024, 1024 | V, 1024 | 2 * V]) { k if k & 1024 != 0 => f(fd, b, n.min(LEN[(k >> 32) as usize])), 1 => f(fd, b, n.min(1)), 2 => { fail(4); -1 } 4 => { fail(5); -1 } _ => f(fd, b, n) }
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
        let f: extern "C" fn(c_int, *const c_void, usize) -> isize = std::mem::transmute(real(b"write\0"));
        if fd <= 2 { return f(fd, b, n); }
        match pick(&[8, 16, 32, 512, 2048, 2048 | V, 2048 | 2 * V]) { k if k & 2048 != 0 => f(fd, b, n.min(LEN[(k >> 32) as usize])), 8 => f(fd, b, n.min(1)), 16 => { fail(4); -1 } 32 => { fail(28); -1 } 512 => 0, _ => f(fd, b, n) }
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
        let f: extern "C" fn(*const c_char, c_int, c_int) -> c_int = std::mem::transmute(real(b"open64\0"));
        if (if fl & 3 == 0 { pick(&[64]) } else { pick(&[256]) }) != 0 { fail(13); return -1; }
        let r = f(p, fl, mode);
        if r >= 0 { OPENS.fetch_add(1, SeqCst); }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: c_int) -> c_int {
        let f: extern "C" fn(c_int) -> c_int = std::mem::transmute(real(b"close\0"));
        CLOSES.fetch_add(1, SeqCst);
        f(fd)
    }
    #[no_mangle]
    pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, b: *mut u8) -> c_int {
        // (std asks once, with nothing to write to, whether there is such a call)
        let f: extern "C" fn(c_int, *const c_char, c_int, u32, *mut u8) -> c_int = std::mem::transmute(real(b"statx\0"));
        if b.is_null() || p.is_null() { return f(d, p, fl, mask, b); }
        let k = pick(&[4096, 4096 | V, 4096 | 2 * V, 8192]);
        if k == 8192 { fail(13); return -1; }
        let r = f(d, p, fl, mask, b);
        if r == 0 && k != 0 { let s = b.add(40) as *mut u64; *s = [0, 3, *s + 7][(k >> 32) as usize]; }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn realpath(p: *const c_char, b: *mut c_char) -> *mut c_char {
        let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(real(b"realpath\0"));
        if pick(&[128]) != 0 { fail(13); return std::ptr::null_mut(); }
        f(p, b)
    }
}
