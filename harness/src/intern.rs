//! Live interners (sharing their map through clones) and the values they handed out.
use crate::mem;
use crate::queue::{piece, REPS};
use crate::util::*;
use crate::Suite;
use bytedata::interning::{ByteInterning, StaticInterning};
use bytedata::{ByteData, StringData};
use serde_json::Value as J;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Barrier;
macro_rules! json { ($($t:tt)*) => { mem::untracked(|| serde_json::json!($($t)*)) } }

const NI: usize = 3;
const NV: usize = 5;
enum Val { No, B(ByteData<'static>), S(StringData<'static>) }
use Val::*;
pub struct Intern { it: Vec<Option<StaticInterning>>, v: Vec<Val>, last: Vec<J>, addrs: Vec<usize>, cont: Vec<Vec<u8>>, tcont: Vec<Vec<u8>> }

/// Where the bytes lie: an address, or 0 when they are inside the value itself (or there are none).
fn place<T>(x: &T, b: &[u8]) -> usize {
    let (a, o) = (b.as_ptr() as usize, x as *const T as usize);
    if b.is_empty() || (a >= o && a < o + std::mem::size_of::<T>()) { 0 } else { a }
}
struct Out { kind: &'static str, val: Val, content: Vec<u8>, place: usize }
fn call(i: &StaticInterning, how: &str, t: &str, rep: i64, b: &[u8]) -> Out {
    // a borrowed argument lives in a block that is gone after the call
    let tmp = if rep >= REPS { Some(b.to_vec()) } else { None };
    let r = if t == "sd" {
        let s = match &tmp { Some(x) => StringData::from_borrowed(std::str::from_utf8(x).unwrap()), None => StringData::try_from_bytedata(piece(b, rep)).ok().unwrap() };
        match how { "always" => Ok(i.intern_always_str(s)), "get" => i.get_str(s), _ => i.intern_str(s) }.map(S).map_err(|e| mem::untracked(|| e.as_bytes().to_vec()))
    } else {
        let s = match &tmp { Some(x) => ByteData::from_borrowed(x), None => piece(b, rep) };
        match how { "always" => Ok(i.intern_always(s)), "get" => i.get(s), _ => i.intern(s) }.map(B).map_err(|e| mem::untracked(|| e.as_slice().to_vec()))
    };
    drop(tmp);
    match r {
        Ok(v) => { let (c, p) = match &v { B(x) => (x.as_slice(), place(x, x.as_slice())), S(x) => (x.as_bytes(), place(x, x.as_bytes())), No => (&[][..], 0) }; let content = mem::untracked(|| c.to_vec()); Out { kind: "ok", val: v, content, place: p } }
        Err(c) => Out { kind: "err", val: No, content: c, place: 0 },
    }
}
impl Intern {
    pub fn new(_prof: &str) -> Self {
        mem::reset(); mem::take_events();
        Intern { it: (0..NI).map(|_| None).collect(), v: (0..NV).map(|_| No).collect(), last: (0..NV).map(|i| serde_json::json!({"i": i + 1, "t": "no"})).collect(), addrs: vec![], cont: vec![], tcont: vec![] }
    }
    fn sid(&mut self, a: usize) -> usize { if a == 0 { return 0; } mem::untracked(|| { if let Some(k) = self.addrs.iter().position(|x| *x == a) { k + 1 } else { self.addrs.push(a); self.addrs.len() } }) }
    fn event(&mut self, r: J) -> J {
        let evs = mem::take_events();
        let mut ch = vec![];
        for i in 0..NV {
            let p = match &self.v[i] {
                No => serde_json::json!({"i": i + 1, "t": "no"}),
                B(x) => { let c = x.as_slice(); serde_json::json!({"i": i + 1, "t": "bd", "b": c, "blk": mem::block_of(c.as_ptr())}) }
                S(x) => { let c = x.as_bytes(); serde_json::json!({"i": i + 1, "t": "sd", "b": c, "blk": mem::block_of(c.as_ptr())}) }
            };
            if p != self.last[i] { self.last[i] = p.clone(); ch.push(p); }
        }
        let f = |k: u8| -> J { J::Array(evs.iter().filter(|e| e.kind == k).map(|e| serde_json::json!([e.id, enc(e.size), e.align])).collect()) };
        let bad: Vec<J> = evs.iter().filter(|e| e.kind >= 3).map(|e| serde_json::json!([e.id, e.kind])).collect();
        serde_json::json!({"r": r, "ch": ch, "ma": f(1), "mf": f(2), "mb": bad})
    }
    fn conc(&mut self, op: &J) -> J {
        let i = self.it[n(op, "s") - 1].as_ref().unwrap();
        let tick = AtomicI64::new(1);
        let thr = op["thr"].as_array().unwrap();
        let bar = Barrier::new(thr.len());
        let (tk, br) = (&tick, &bar);
        mem::set_noise(ni(op, "noise") as usize);
        let res: Vec<Vec<(i64, i64, Out)>> = mem::untracked(|| std::thread::scope(|sc| {
            let hs: Vec<_> = thr.iter().map(|t| sc.spawn(move || {
                let ops = t["ops"].as_array().unwrap();
                let args: Vec<Vec<u8>> = ops.iter().map(|o| by(o, "b")).collect();
                let mut out = Vec::with_capacity(ops.len());
                br.wait();
                let own = if bl(t, "own") { Some(mem::tracked(|| i.clone())) } else { None };
                let i = own.as_ref().unwrap_or(i);
                for (o, b) in ops.iter().zip(&args) {
                    let how = st(o, "how");
                    let c = tk.fetch_add(1, Ordering::SeqCst);
                    let r = mem::tracked(|| if how == "clear" { i.clear(); Out { kind: "ok", val: No, content: mem::untracked(Vec::new), place: 0 } } else { call(i, how, st(o, "t"), ni(o, "rep"), b) });
                    let e = tk.fetch_add(1, Ordering::SeqCst);
                    out.push((c, e, r));
                }
                mem::tracked(|| drop(own));
                out
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        }));
        mem::set_noise(0);
        // contents again after everything has happened, then what the map holds now
        let mut v: Vec<J> = vec![];
        for t in &res {
            let mut row = vec![];
            for (c, e, o) in t {
                let late = match &o.val { B(x) => x.as_slice().to_vec(), S(x) => x.as_bytes().to_vec(), No => o.content.clone() };
                let id = self.sid(o.place);
                row.push(serde_json::json!([c, e, o.kind, o.content, late, id]));
            }
            v.push(J::Array(row));
        }
        let keys: Vec<Vec<u8>> = { let mut k: Vec<Vec<u8>> = vec![]; for t in thr { for o in t["ops"].as_array().unwrap() { if o["b"].is_array() { let b = by(o, "b"); if !k.contains(&b) { k.push(b) } } } } k };
        let mut pr = vec![];
        for k in &keys { let o = mem::tracked(|| call(self.it[n(op, "s") - 1].as_ref().unwrap(), "get", "bd", 0, k)); let id = self.sid(o.place); pr.push(serde_json::json!([k, o.kind, o.content, id])); mem::tracked(|| drop(o.val)); }
        mem::tracked(|| for t in res { for (_, _, o) in t { drop(o.val); } });
        serde_json::json!({"k": "ok", "v": {"thr": v, "probe": pr}})
    }
    fn run(&mut self, op: &J) -> J {
        let (s, d) = (n(op, "s").wrapping_sub(1), n(op, "d").wrapping_sub(1));
        match st(op, "op") {
            "inew" => { self.it[d] = Some(match st(op, "how") { "const" => StaticInterning::new_const(n(op, "m")), "default" => StaticInterning::default(), _ => StaticInterning::new(n(op, "m")) }); okn() }
            "iclone" => { let c = self.it[s].as_ref().unwrap().clone(); self.it[d] = Some(c); okn() }
            "iclear" => { self.it[s].as_ref().unwrap().clear(); okn() }
            "idrop" => { self.it[s] = None; okn() }
            "idebug" => { let x = mem::untracked(|| format!("{:?}", self.it[s].as_ref().unwrap()).len()); ok(json!(x > 0)) }
            "intern" => {
                let b = by(op, "b");
                let o = call(self.it[s].as_ref().unwrap(), st(op, "how"), st(op, "t"), ni(op, "rep"), &b);
                let id = self.sid(o.place);
                let r = json!({"k": o.kind, "v": [o.content, id]});
                self.v[d] = o.val;
                mem::untracked(|| drop(o.content));
                r
            }
            "vdrop" => { self.v[s] = No; okn() }
            _ => json!({"k": "badop"}),
        }
    }
}
impl Suite for Intern {
    fn exec(&mut self, op: &J) -> J {
        if st(op, "op") == "conc" { let r = self.conc(op); return self.event(r); }
        let r = mem::tracked(|| catch(|| self.run(op)));
        self.event(r.unwrap_or_else(|()| pan()))
    }
    fn gen(&mut self, r: &mut Rng, step: usize) -> Option<J> {
        if step == 0 {
            // contents that differ late, share prefixes and lengths
            let base: Vec<u8> = (0..300).map(|k| b'a' + (k % 3) as u8).collect();
            for _ in 0..r.range(2, 4) { let l = *r.pick(&[0usize, 3, 13, 14, 15, 15, 16, 16, 20, 20, 33, 33, 127, 128, 129, 256]); let mut c = base[..l].to_vec(); if l > 0 && r.chance(1, 2) { c[l - 1] = b'z'; } self.cont.push(c); }
            for _ in 0..2 { let mut c = gen_text(r, 9); while c.len() < 15 && r.chance(2, 3) { c.extend_from_slice("é".as_bytes()); } self.tcont.push(c); }
            return Some(serde_json::json!({"op": "inew", "d": 1, "how": *r.pick(&["new", "const", "default"]), "m": 128}));
        }
        let live: Vec<usize> = (0..NI).filter(|i| self.it[*i].is_some()).collect();
        let free: Vec<usize> = (0..NI).filter(|i| self.it[*i].is_none()).collect();
        let content = |me: &Self, r: &mut Rng| -> (Vec<u8>, &'static str) { if r.chance(1, 4) { (r.pick(&me.tcont).clone(), *r.pick(&["bd", "sd"])) } else { let c = r.pick(&me.cont).clone(); (c, *r.pick(&["bd", "bd", "sd"])) } };
        if live.is_empty() || (!free.is_empty() && r.chance(1, 12)) {
            let d = free[r.below(free.len())] + 1;
            if !live.is_empty() && r.chance(2, 3) { return Some(serde_json::json!({"op": "iclone", "s": r.pick(&live) + 1, "d": d})); }
            return Some(serde_json::json!({"op": "inew", "d": d, "how": *r.pick(&["new", "const"]), "m": *r.pick(&[0usize, 14, 15, 16, 20, 128])}));
        }
        let s = r.pick(&live) + 1;
        Some(match r.below(22) {
            0 => serde_json::json!({"op": "iclear", "s": s}),
            1 => serde_json::json!({"op": "idrop", "s": s}),
            2 => { let vs: Vec<usize> = (0..NV).filter(|i| !matches!(self.v[*i], No)).collect(); if vs.is_empty() { serde_json::json!({"op": "idebug", "s": s}) } else { serde_json::json!({"op": "vdrop", "s": r.pick(&vs) + 1}) } }
            3..=5 => {
                let k = r.range(2, 3);
                let few: Vec<(Vec<u8>, &'static str)> = (0..r.range(1, 2)).map(|_| content(self, r)).collect();
                let thr: Vec<J> = (0..k).map(|_| {
                    let ops: Vec<J> = (0..r.range(1, 3)).map(|_| { if r.chance(1, 12) { return serde_json::json!({"how": "clear"}); } let (b, t) = r.pick(&few).clone(); serde_json::json!({"how": *r.pick(&["intern", "intern", "always", "always", "get"]), "t": t, "rep": r.below(REPS as usize + 1), "b": b}) }).collect();
                    serde_json::json!({"own": r.chance(1, 3), "ops": ops})
                }).collect();
                serde_json::json!({"op": "conc", "s": s, "thr": thr, "noise": r.below(4)})
            }
            _ => { let (b, t) = content(self, r); serde_json::json!({"op": "intern", "s": s, "d": r.below(NV) + 1, "how": *r.pick(&["intern", "intern", "always", "always", "get"]), "t": t, "rep": r.below(REPS as usize + 1), "b": b}) }
        })
    }
    fn finish(&mut self) -> Option<J> {
        mem::tracked(|| { for x in &mut self.it { *x = None; } for x in &mut self.v { *x = No; } });
        let e = self.event(okn());
        let mut e = e; e["op"] = J::from("finish");
        Some(e)
    }
}
