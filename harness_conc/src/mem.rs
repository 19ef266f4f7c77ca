//! The recording allocator: blocks obtained inside a library call are recorded and,
//! once freed, kept until the end of the execution.
use std::alloc::{GlobalAlloc, Layout, System};
use std::os::raw::{c_int, c_long, c_void};
extern "C" {
    pub fn rt_reset(c: *const c_int, n: c_int);
    pub fn rt_begin(n: c_int);
    pub fn rt_start(t: c_int);
    pub fn rt_go();
    pub fn rt_done();
    pub fn rt_point();
    pub fn rt_call(code: c_int, s: c_int, d: c_long);
    pub fn rt_ret(v: c_long);
    pub fn rt_busy(b: c_int) -> c_int;
    pub fn rt_log() -> c_int;
    pub fn rt_entry(i: c_int, o: *mut c_long);
    pub fn rt_nrec() -> c_int;
    pub fn rt_rec(i: c_int, o: *mut c_int);
    pub fn rt_end();
    pub fn rt_patience(ms: c_int);
    pub fn rt_panic();
    fn rt_alloc(n: usize, al: usize) -> *mut c_void;
    fn rt_free(p: *mut c_void, n: usize, al: usize) -> c_int;
}
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = rt_alloc(l.size(), l.align()) as *mut u8;
        if p.is_null() { System.alloc(l) } else { p }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if rt_free(p as *mut c_void, l.size(), l.align()) == 0 { System.dealloc(p, l) }
    }
}
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let o = unsafe { rt_busy(0) };
    let r = f();
    unsafe { rt_busy(o) };
    r
}
/// One call into the library.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    unsafe { rt_busy(1) };
    let r = f();
    unsafe { rt_busy(0) };
    r
}
