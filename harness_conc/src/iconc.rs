//! One interner used by several threads under a chosen schedule.
use crate::conc::{call, collect, explore, ret, Run};
use crate::mem::*;
use crate::util::*;
use bytedata::interning::{ByteInterning, StaticInterning};
use bytedata::ByteData;
use serde_json::{json, Value as J};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Mutex;

/// A thread-local with a destructor, so that the list of destructors exists before anything is recorded.
struct Tl;
impl Drop for Tl { fn drop(&mut self) { std::hint::black_box(()); } }
thread_local! { static TL: Tl = const { Tl }; }

/// The waiting queues of the locks grow with the number of threads that ever waited at once: let that happen before.
fn warm() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let m: dashmap::DashMap<u8, u8> = dashmap::DashMap::new();
        m.insert(1, 1);
        std::thread::scope(|sc| {
            let g = m.get_mut(&1);
            for _ in 0..12 { sc.spawn(|| { std::hint::black_box(m.get(&1).is_some()); }); }
            std::thread::sleep(std::time::Duration::from_millis(60));
            drop(g);
        });
    });
}

struct Out { call: i64, ret: i64, kind: &'static str, val: Option<ByteData<'static>>, content: Vec<u8> }
fn look(x: &ByteData<'static>) -> Vec<u8> {
    let sl = { let o = unsafe { rt_busy(1) }; let s = x.as_slice(); unsafe { rt_busy(o) }; s };
    (0..sl.len()).map(|i| unsafe { std::ptr::read_volatile(sl.as_ptr().add(i)) }).collect()
}
static TICK: AtomicI64 = AtomicI64::new(1);
fn one(i: &StaticInterning, o: &J) -> Out {
    let (how, b) = (st(o, "how"), by(o, "b"));
    call("intern", 0, 0);
    let c = TICK.fetch_add(1, Ordering::SeqCst);
    let r = if how == "clear" { lib(|| i.clear()); Ok(None) } else {
        // the argument: borrowed from a buffer of the caller, or storage of its own
        let arg = if ni(o, "rep") == 0 { ByteData::from_borrowed(&b) } else { lib(|| ByteData::from_borrowed(&b).into_shared()) };
        lib(|| match how { "always" => Ok(Some(i.intern_always(arg))), "get" => i.get(arg).map(Some), _ => i.intern(arg).map(Some) }.map_err(|e| untracked(|| e.as_slice().to_vec())))
    };
    let e = TICK.fetch_add(1, Ordering::SeqCst);
    ret(0);
    match r {
        Ok(v) => { let content = v.as_ref().map(look).unwrap_or_default(); Out { call: c, ret: e, kind: "ok", val: v, content } }
        Err(x) => Out { call: c, ret: e, kind: "err", val: None, content: x },
    }
}

fn execute(lazy: bool, m: usize, thr: &[J], sched: &[i32]) -> Run {
    TICK.store(1, Ordering::SeqCst);
    TL.with(|_| ());
    unsafe { rt_reset(sched.as_ptr(), sched.len() as i32); rt_patience(10); }
    let it = lib(|| Box::new(if lazy { StaticInterning::new_const(m) } else { StaticInterning::new(m) }));
    unsafe { rt_begin(thr.len() as i32); }
    let panics = Mutex::new(0);
    let res: Vec<Vec<Out>> = std::thread::scope(|sc| {
        let mut js = vec![];
        for (k, t) in thr.iter().enumerate() {
            let (it, panics) = (&it, &panics);
            js.push(sc.spawn(move || {
                TL.with(|_| ());
                let ops: Vec<J> = t["ops"].as_array().cloned().unwrap_or_default();
                let own = bl(t, "own");
                unsafe { rt_start(k as i32 + 1); }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mine = if own { unsafe { rt_point(); } Some(lib(|| StaticInterning::clone(it))) } else { None };
                    let i: &StaticInterning = mine.as_ref().unwrap_or(it);
                    let out: Vec<Out> = ops.iter().map(|o| one(i, o)).collect();
                    if mine.is_some() { unsafe { rt_point(); } }
                    lib(|| drop(mine));
                    out
                }));
                unsafe { rt_busy(0); if r.is_err() { rt_panic(); *panics.lock().unwrap() += 1; } rt_done(); }
                r.unwrap_or_default()
            }));
        }
        unsafe { rt_go(); }
        js.into_iter().map(|j| j.join().unwrap()).collect()
    });
    let mut addrs: Vec<usize> = vec![];
    let mut sid = |v: &ByteData<'static>| { let s = v.as_slice(); let (a, o) = (s.as_ptr() as usize, v as *const _ as usize); if s.is_empty() || (a >= o && a < o + std::mem::size_of_val(v)) { return 0; } match addrs.iter().position(|x| *x == a) { Some(k) => k + 1, None => { addrs.push(a); addrs.len() } } };
    let v: Vec<J> = res.iter().map(|t| J::Array(t.iter().map(|o| { let late = o.val.as_ref().map(look).unwrap_or_else(|| o.content.clone()); let id = o.val.as_ref().map(&mut sid).unwrap_or(0); json!([o.call, o.ret, o.kind, o.content, late, id]) }).collect())).collect();
    let mut keys: Vec<Vec<u8>> = vec![];
    for t in thr { for o in t["ops"].as_array().into_iter().flatten() { if o["b"].is_array() { let b = by(o, "b"); if !keys.contains(&b) { keys.push(b) } } } }
    let mut pr = vec![];
    for k in &keys {
        let r = lib(|| it.get(ByteData::from_borrowed(k)));
        match &r { Ok(x) => { let id = sid(x); pr.push(json!([k, "ok", look(x), id])); } Err(x) => pr.push(json!([k, "err", x.as_slice(), 0])) }
        lib(|| drop(r));
    }
    for t in res { for o in t { lib(|| drop(o.val)); } }
    lib(|| drop(it));
    unsafe { rt_end(); rt_patience(2000); }
    let mut r = collect(&[]);
    let p = *panics.lock().unwrap() > 0;
    r.more = json!({"r": if p { pan() } else { json!({"k": "ok", "v": {"thr": v, "probe": pr}}) }});
    r
}

pub struct IConc { prof: String }
impl IConc { pub fn new(prof: &str) -> Self { IConc { prof: prof.into() } } }
impl crate::Suite for IConc {
    fn exec(&mut self, op: &J) -> J {
        warm();
        let thr: Vec<J> = op["thr"].as_array().cloned().unwrap_or_default();
        let (lazy, m) = (bl(op, "lazy"), n(op, "m"));
        json!({"r": {"k": "ok"}, "runs": explore(op, |s| execute(lazy, m, &thr, s))})
    }
    fn gen(&mut self, r: &mut Rng, step: usize) -> Option<J> {
        if step > 0 { return None; }
        let deep = self.prof == "deep";
        let keys: Vec<Vec<u8>> = (0..r.range(1, 2)).map(|k| { let l = *r.pick(&[15usize, 20, 20]); let mut c = vec![b'a'; l]; c[l - 1] = b'x' + k as u8; c }).collect();
        let nt = if r.chance(1, 4) { 3 } else { 2 };
        let thr: Vec<J> = (0..nt).map(|_| {
            let ops: Vec<J> = (0..r.range(1, if deep { 3 } else { 2 })).map(|_| if r.chance(1, 10) { json!({"how": "clear"}) } else { json!({"how": *r.pick(&["always", "always", "intern", "get"]), "rep": r.below(2), "b": r.pick(&keys)}) }).collect();
            json!({"own": r.chance(1, 3), "ops": ops})
        }).collect();
        Some(json!({"op": "iexplore", "lazy": r.chance(3, 4), "m": 64, "thr": thr, "max": if deep { 80 } else { 30 }, "seed": r.below(1000)}))
    }
}
