//! Recording global allocator: every block obtained while tracking is on is
//! recorded with size and alignment; freed blocks are poisoned and kept in
//! quarantine until the end of the history, so that a double free, a free with
//! another layout and a use after free are all visible as data.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub struct Alloc;
const CAP: usize = 1 << 14;
const BIG: usize = 1 << 24;

#[derive(Clone, Copy)]
struct Blk { addr: usize, base: usize, size: usize, align: usize, id: u32, live: bool, over: bool }
/// Guard bytes after and before every block: a write outside a block is an event.
const RED: usize = 256;
fn front(align: usize) -> usize { let k = 64usize.div_ceil(2 * align); (2 * k + 1) * align }
unsafe fn guards_ok(b: &Blk) -> bool {
    let f = front(b.align);
    let a = std::slice::from_raw_parts(b.base as *const u8, f);
    let z = std::slice::from_raw_parts((b.addr + b.size) as *const u8, RED);
    // a freed (quarantined) block keeps its poison
    let q = b.live || b.size > 4096 || std::slice::from_raw_parts(b.addr as *const u8, b.size).iter().all(|x| *x == 0xDD);
    q && a.iter().all(|x| *x == 0xC7) && z.iter().all(|x| *x == 0xC7)
}
const EMPTY: Blk = Blk { addr: 0, base: 0, size: 0, align: 0, id: 0, live: false, over: false };

static LOCK: AtomicBool = AtomicBool::new(false);
static mut TAB: [Blk; CAP] = [EMPTY; CAP];
static mut N: usize = 0;
static mut EVS: [Ev; CAP] = [Ev { kind: 0, id: 0, size: 0, align: 0 }; CAP];
static mut NE: usize = 0;
static FILL: AtomicUsize = AtomicUsize::new(0xA5);
/// What fresh blocks contain.
pub fn set_fill(x: u8) { FILL.store(x as usize, Ordering::Relaxed); }
static NOISE: AtomicUsize = AtomicUsize::new(0);
static SEED: AtomicUsize = AtomicUsize::new(1);
/// Let threads pause at allocations (0: never): points where they can overtake each other.
pub fn set_noise(n: usize) { NOISE.store(n, Ordering::Relaxed); }
fn noise() {
    let n = NOISE.load(Ordering::Relaxed);
    if n == 0 { return; }
    let x = SEED.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed); let x = (x ^ (x >> 31)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 40;
    match (n, x % 4) { (1, 0) | (2, 0 | 1) => std::thread::yield_now(), (3, 0..=2) => { let t = std::time::Instant::now(); while t.elapsed().as_micros() < 15 { std::hint::spin_loop(); } } _ => {} }
}
static ACTIVE: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Copy)]
pub struct Ev { pub kind: u8, pub id: u32, pub size: usize, pub align: usize }
// kinds: 1 alloc, 2 free, 3 double free, 4 write outside the block or after its release

thread_local! { static TRACK: Cell<bool> = const { Cell::new(false) }; }

fn lock() { while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() { std::hint::spin_loop(); } }
fn unlock() { LOCK.store(false, Ordering::Release); }

#[allow(static_mut_refs)]
unsafe fn find(addr: usize) -> Option<usize> {
    let mut i = N;
    while i > 0 { i -= 1; if TAB[i].addr == addr { return Some(i); } }
    None
}
#[allow(static_mut_refs)]
unsafe fn ev(kind: u8, id: u32, size: usize, align: usize) {
    if NE < CAP { EVS[NE] = Ev { kind, id, size, align }; NE += 1; }
}

#[allow(static_mut_refs)]
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if TRACK.try_with(|t| t.get()).unwrap_or(false) {
            // exactly the requested alignment, never more: a wrong alignment request shows
            if l.size() > (1 << 40) { return std::ptr::null_mut(); }
            let f = front(l.align());
            let base = System.alloc(Layout::from_size_align_unchecked(l.size() + f + RED, l.align() * 2));
            if base.is_null() { return base; }
            let p = base.add(f);
            std::ptr::write_bytes(base, 0xC7, f);
            std::ptr::write_bytes(p.add(l.size()), 0xC7, RED);
            if l.size() <= BIG { std::ptr::write_bytes(p, FILL.load(Ordering::Relaxed) as u8, l.size()); }
            lock();
            if N < CAP {
                TAB[N] = Blk { addr: p as usize, base: base as usize, size: l.size(), align: l.align(), id: N as u32 + 1, live: true, over: false };
                ev(1, N as u32 + 1, l.size(), l.align());
                N += 1;
                ACTIVE.store(N, Ordering::Relaxed);
            }
            unlock();
            noise();
            return p;
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ACTIVE.load(Ordering::Relaxed) > 0 {
            lock();
            if let Some(i) = find(p as usize) {
                let b = TAB[i];
                if b.live {
                    TAB[i].live = false;
                    ev(2, b.id, l.size(), l.align());
                    if b.size <= BIG { std::ptr::write_bytes(p, 0xDD, b.size); }
                } else {
                    ev(3, b.id, l.size(), l.align());
                }
                unlock();
                noise();
                return; // quarantined until reset()
            }
            unlock();
        }
        System.dealloc(p, l);
    }
}

pub fn track(on: bool) -> bool { TRACK.with(|t| t.replace(on)) }
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let o = track(false);
    let r = f();
    track(o);
    r
}
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let o = track(true);
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { track(self.0); } }
    let _g = G(o);
    f()
}
/// Take the events recorded since the last call.
#[allow(static_mut_refs)]
pub fn take_events() -> Vec<Ev> {
    untracked(|| unsafe {
        let mut v = Vec::with_capacity(64);
        lock();
        for i in 0..N { let b = TAB[i]; if !b.over && !guards_ok(&b) { TAB[i].over = true; ev(4, b.id, b.size, b.align); } }
        let n = NE;
        if n > v.capacity() { unlock(); v.reserve(n + 16); lock(); }
        for i in 0..NE.min(v.capacity()) { v.push(EVS[i]); }
        NE = 0;
        unlock();
        v
    })
}
/// The id of the block containing an address (0 if none).
#[allow(static_mut_refs)]
pub fn block_of(p: *const u8) -> u32 {
    let a = p as usize;
    unsafe {
        lock();
        let mut r = 0;
        for i in 0..N { let b = TAB[i]; if a >= b.addr && a < b.addr + b.size { r = b.id; if b.live { break; } } }
        unlock();
        r
    }
}
/// Number of live blocks.
#[allow(static_mut_refs)]
pub fn live() -> usize { unsafe { lock(); let mut n = 0; for i in 0..N { if TAB[i].live { n += 1; } } unlock(); n } }
/// Forget everything recorded; quarantined blocks are returned to the system.
#[allow(static_mut_refs)]
pub fn reset() {
    unsafe {
        lock();
        for i in 0..N {
            let b = TAB[i];
            if !b.live { System.dealloc(b.base as *mut u8, Layout::from_size_align_unchecked(b.size + front(b.align) + RED, b.align * 2)); }
            TAB[i] = EMPTY;
        }
        N = 0; NE = 0;
        ACTIVE.store(0, Ordering::Relaxed);
        unlock();
    }
}
