use crate::mem::*;
use crate::util::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, StringData};
use serde_json::{json, Value as J};
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::Mutex;

/// An owner with heap data of its own, which it overwrites when it goes away.
struct Own(Vec<u8>);
impl Drop for Own { fn drop(&mut self) { for x in self.0.iter_mut() { *x = 0xEE; } } }
impl bytedata::external::ExternalBytes for Own { const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Own| &x.0[..]); }

enum H { Sb(SharedBytes), Bd(ByteData<'static>), Sd(StringData<'static>), By(bytes::Bytes), Q(ByteQueue<'static>), V(Vec<u8>), M(bytes::BytesMut) }
use H::*;
struct Item { id: i32, h: H }

static NEXT: AtomicI32 = AtomicI32::new(1);
static READS: Mutex<Vec<(i32, Vec<u8>)>> = Mutex::new(Vec::new());
const OPS: &[&str] = &["?", "create", "clone", "drop", "read", "slice", "uniq", "take", "conv", "intern"];
fn code(op: &str) -> i32 { OPS.iter().position(|x| *x == op).unwrap_or(0) as i32 }
fn fresh() -> i32 { NEXT.fetch_add(1, Ordering::Relaxed) }

fn create(ty: &str, b: &[u8]) -> H {
    match ty {
        "sb" => Sb(SharedBytes::from_slice(b)),
        "sba" => Sb(SharedBytes::from_slice_aligned(b, 64)),
        "bds" => Bd(ByteData::from_shared(SharedBytes::from_slice(b))),
        "bde" => Bd(ByteData::from_external(b.to_vec())),
        "bdo" => Bd(ByteData::from_external(Own(b.to_vec()))),
        "sds" => Sd(StringData::try_from(SharedBytes::from_slice(b)).ok().unwrap()),
        "sde" => Sd(StringData::from(String::from_utf8(b.to_vec()).unwrap())),
        "by" => By(bytes::Bytes::from(SharedBytes::from_slice(b))),
        _ => Q([ByteData::from_shared(SharedBytes::from_slice(&b[..12])), ByteData::from_external(b[12..].to_vec())].into_iter().collect()),
    }
}
fn clone(h: &H) -> H { match h { Sb(x) => Sb(x.clone()), Bd(x) => Bd(x.clone()), Sd(x) => Sd(x.clone()), By(x) => By(x.clone()), Q(x) => Q(x.clone()), V(x) => V(x.clone()), M(x) => M(x.clone()) } }
fn slice(h: &H, n: usize) -> H {
    match h {
        Sb(x) => Sb(x.sliced_range(1..n)), Bd(x) => Bd(x.sliced(1..n)), Sd(x) => Sd(x.sliced(1..n)), By(x) => By(x.slice(1..n)),
        Q(x) => Q(x.slice(1..n)), V(x) => V(x[1..n].to_vec()), M(x) => { let mut m = bytes::BytesMut::new(); m.extend_from_slice(&x[1..n]); M(m) }
    }
}
fn uniq(h: &H) -> i64 { match h { Sb(x) => x.is_unique() as i64, By(x) => x.is_unique() as i64, _ => -1 } }
/// Take the storage back if nobody else has it (a copy otherwise), and write to it.
fn take(h: H) -> H {
    match h {
        Sb(x) => { let mut b = SharedBytesBuilder::from(x); b.extend_from_slice(&[9]); Sb(b.build()) }
        Bd(x) => { let mut v: Vec<u8> = x.into(); v.push(9); V(v) }
        Sd(x) => { let mut v: String = x.into(); v.push('\t'); V(v.into_bytes()) }
        By(x) => match x.try_into_mut() { Ok(mut m) => { m.extend_from_slice(&[9]); M(m) } Err(b) => { let mut v: Vec<u8> = b.into(); v.push(9); V(v) } },
        Q(x) => { let mut v: Vec<u8> = x.into(); v.push(9); V(v) }
        V(mut v) => { v.push(9); V(v) }
        M(mut m) => { m.extend_from_slice(&[9]); M(m) }
    }
}
fn conv(h: H) -> H {
    match h {
        Sb(x) => By(x.into()), Bd(x) => By(x.into()), By(x) => Bd(ByteData::from(x)), Sd(x) => Bd(x.into_bytedata()),
        Q(x) => Bd(ByteData::from(x)), V(x) => Bd(ByteData::from_external(x)), M(x) => By(x.freeze()),
    }
}
fn bytes_of(h: &H) -> Vec<&[u8]> { match h { Sb(x) => vec![x.as_slice()], Bd(x) => vec![x.as_slice()], Sd(x) => vec![x.as_bytes()], By(x) => vec![&x[..]], Q(x) => x.chunks().map(|c| c.as_slice()).collect(), V(x) => vec![&x[..]], M(x) => vec![&x[..]] } }
fn len(h: &H) -> usize { bytes_of(h).iter().map(|x| x.len()).sum() }

pub fn call(op: &str, s: i32, d: i32) { unsafe { rt_point(); rt_call(code(op), s, d as i64); } }
pub fn ret(v: i64) { unsafe { rt_ret(v); } }
fn read(h: &H) {
    let n = unsafe { rt_busy(1) }; let sl = bytes_of(h); unsafe { rt_busy(n); }
    let mut v = vec![];
    for x in &sl { for i in 0..x.len() { v.push(unsafe { std::ptr::read_volatile(x.as_ptr().add(i)) }); } }
    drop(sl);
    let mut r = READS.lock().unwrap();
    r.push((0, v));
    ret(r.len() as i64 - 1);
}

fn drop_item(it: Item) { call("drop", it.id, 0); lib(|| drop(it.h)); ret(0); }
/// One thread's program on its own stack of handles, and one handle it only has a reference to.
fn program(ops: &[String], mut own: Vec<Item>, shared: Option<&Item>) -> Vec<Item> {
    let mut keep = false;
    for op in ops {
        let by_ref = op.starts_with('r') && op != "read";
        let name = if by_ref { &op[1..] } else { op.as_str() };
        if name == "keep" { keep = true; continue; }
        if by_ref || matches!(name, "clone" | "read" | "slice" | "uniq") {
            let it = if by_ref { shared } else { own.last() };
            let Some(it) = it else { continue };
            let d = if matches!(name, "clone" | "slice") { fresh() } else { 0 };
            call(name, it.id, d);
            match name {
                "clone" => { let h = lib(|| clone(&it.h)); ret(0); own.push(Item { id: d, h }); }
                "slice" => { let n = len(&it.h); let h = lib(|| slice(&it.h, n)); ret(0); own.push(Item { id: d, h }); }
                "uniq" => { let v = lib(|| uniq(&it.h)); ret(v); }
                _ => read(&it.h),
            }
        } else {
            let Some(it) = own.pop() else { continue };
            match name {
                "drop" => drop_item(it),
                "take" | "conv" => { let d = fresh(); call(name, it.id, d); let h = it.h; let h = lib(|| if name == "take" { take(h) } else { conv(h) }); ret(0); own.push(Item { id: d, h }); }
                "bottom" => { own.insert(0, it); }
                _ => own.push(it),
            }
        }
    }
    if !keep { while let Some(it) = own.pop() { drop_item(it); } }
    own
}

pub struct Run { pub log: Vec<J>, pub rec: Vec<[i32; 3]>, pub more: J }
fn execute(ty: &str, b: &[u8], progs: &[Vec<String>], by_ref: bool, sched: &[i32]) -> Run {
    NEXT.store(1, Ordering::Relaxed);
    READS.lock().unwrap().clear();
    unsafe { rt_reset(sched.as_ptr(), sched.len() as i32); }
    let id = fresh();
    call("create", 0, id);
    let h = lib(|| create(ty, b));
    ret(0);
    let first = Item { id, h };
    let mut hands: Vec<Vec<Item>> = vec![];
    let mut first = Some(first);
    for k in 0..progs.len() {
        if !by_ref && k + 1 == progs.len() { hands.push(vec![first.take().unwrap()]); continue; }
        let f = first.as_ref().unwrap();
        let d = fresh();
        call("clone", f.id, d);
        let h = lib(|| clone(&f.h));
        ret(0);
        hands.push(vec![Item { id: d, h }]);
    }
    unsafe { rt_begin(progs.len() as i32); }
    let kept: Vec<Item> = std::thread::scope(|sc| {
        let sh = first.as_ref();
        let mut js = vec![];
        for (k, own) in hands.into_iter().enumerate() {
            let ops = &progs[k];
            struct P<T>(T);
            unsafe impl<T> Send for P<T> {}
            let p = P((own, sh));
            js.push(sc.spawn(move || {
                let p = p; let (own, sh) = p.0;
                unsafe { rt_start(k as i32 + 1); }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| program(ops, own, sh)));
                unsafe { rt_busy(0); if r.is_err() { rt_panic(); } rt_done(); }
                P(r.ok())
            }));
        }
        unsafe { rt_go(); }
        js.into_iter().flat_map(|j| j.join().unwrap().0.unwrap_or_default()).collect()
    });
    for it in kept { drop_item(it); }
    if let Some(it) = first { drop_item(it); }
    unsafe { rt_end(); }
    let reads = READS.lock().unwrap();
    collect(&reads)
}
pub fn collect(reads: &[(i32, Vec<u8>)]) -> Run {
    let mut log = vec![];
    let mut open = [0i64; 16];
    for i in 0..unsafe { rt_log() } {
        let mut o = [0i64; 7];
        unsafe { rt_entry(i, o.as_mut_ptr()); }
        let [k, t, bl, of, n, ord, v] = o;
        let k = (k as u8 as char).to_string();
        log.push(match k.as_str() {
            "c" => { open[t as usize] = ord; json!({"k": k, "t": t + 1, "op": OPS[ord as usize], "s": bl, "d": of}) }
            "e" => if OPS[open[t as usize] as usize] == "read" { json!({"k": k, "t": t + 1, "v": reads.get(v as usize).map(|x| jb(&x.1))}) } else { json!({"k": k, "t": t + 1, "v": v}) },
            "S" => json!({"k": k, "n": of}),
            "J" | "P" => json!({"k": k}),
            "x" => json!({"k": k, "t": t + 1, "o": ord}),
            "a" | "f" => json!({"k": k, "t": t + 1, "b": bl, "n": of, "al": n}),
            "l" | "s" | "m" => json!({"k": k, "t": t + 1, "b": bl, "p": of, "n": n, "o": ord, "v": v}),
            _ => json!({"k": k, "t": t + 1, "b": bl, "p": of, "n": n}),
        });
    }
    let rec = (0..unsafe { rt_nrec() }).map(|i| { let mut o = [0; 3]; unsafe { rt_rec(i, o.as_mut_ptr()); } o }).collect();
    Run { log, rec, more: J::Null }
}

/// Schedules of one program, fewest preemptions first, up to op.max (or exactly op.sched).
pub fn explore(op: &J, mut execute: impl FnMut(&[i32]) -> Run) -> Vec<J> {
    let mut runs = vec![];
    let mut put = |s: &[i32], r: &Run| { let mut j = json!({"sched": s, "log": r.log}); if let J::Object(m) = &r.more { for (k, v) in m { j[k] = v.clone(); } } runs.push(j); };
    if let Some(s) = op["sched"].as_array() {
        let s: Vec<i32> = s.iter().map(|x| x.as_i64().unwrap_or(0) as i32).collect();
        let r = execute(&s);
        put(&s, &r);
    } else {
        let max = n(op, "max");
        let mut rng = Rng::new(n(op, "seed") as u64);
        let mut todo: Vec<Vec<Vec<i32>>> = vec![vec![vec![]]];
        for _ in 0..max {
            let Some(lv) = todo.iter_mut().find(|x| !x.is_empty()) else { break };
            let k = rng.below(lv.len());
            let pre = lv.swap_remove(k);
            let r = execute(&pre);
            let mut cost = 0;
            for (i, x) in r.rec.iter().enumerate() {
                if i >= pre.len() {
                    for c in 1..x[0] {
                        let cc = cost + (x[2] != 0) as usize;
                        let mut p: Vec<i32> = r.rec[..i].iter().map(|y| y[1]).collect();
                        p.push(c);
                        while todo.len() <= cc { todo.push(vec![]); }
                        todo[cc].push(p);
                    }
                }
                if x[2] != 0 && x[1] != 0 { cost += 1; }
            }
            put(&pre, &r);
        }
    }
    runs
}

pub struct Conc { prof: String }
impl Conc { pub fn new(prof: &str) -> Self { Conc { prof: prof.into() } } }
impl crate::Suite for Conc {
    fn exec(&mut self, op: &J) -> J {
        let progs: Vec<Vec<String>> = op["progs"].as_array().map(|a| a.iter().map(|p| p.as_array().map(|q| q.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()).collect()).unwrap_or_default();
        let (ty, b, by_ref) = (st(op, "ty"), by(op, "b"), bl(op, "ref"));
        let runs = explore(op, |s| execute(ty, &b, &progs, by_ref, s));
        json!({"r": {"k": "ok"}, "runs": runs})
    }
    fn gen(&mut self, r: &mut Rng, step: usize) -> Option<J> {
        if step > 0 { return None; }
        let text = r.chance(1, 6);
        let ty = if text { *r.pick(&["sds", "sde"]) } else { *r.pick(&["sb", "sb", "sba", "bds", "bde", "bdo", "by", "by", "q"]) };
        let b: Vec<u8> = (0..24).map(|i| b'A' + i).collect();
        let by_ref = r.chance(1, 3);
        let nt = if r.chance(1, 3) { 3 } else { 2 };
        let deep = self.prof == "deep";
        let names: &[&str] = &["clone", "drop", "read", "slice", "uniq", "take", "take", "conv", "drop", "read", "bottom"];
        let rnames: &[&str] = &["rclone", "rread", "rslice", "runiq"];
        let progs: Vec<Vec<&str>> = (0..nt).map(|_| { let k = r.range(1, if deep { 5 } else { 3 }); let mut v: Vec<&str> = (0..k).map(|_| if by_ref && r.chance(1, 2) { *r.pick(rnames) } else { *r.pick(names) }).collect(); if r.chance(1, 8) { v.push("keep"); } v }).collect();
        Some(json!({"op": "explore", "ty": ty, "b": b, "ref": by_ref, "progs": progs, "max": if deep { 60 } else { 24 }, "seed": r.below(1000)}))
    }
}
