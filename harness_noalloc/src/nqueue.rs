//! Live queues in the allocator-free configuration: one public call per event.
use crate::mem;
use crate::steps::gen_steps;
use crate::util::*;
use crate::{run_steps, with_range};
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use serde_json::Value as J;
macro_rules! json { ($($t:tt)*) => { mem::untracked(|| serde_json::json!($($t)*)) } }

pub const NQ: usize = 3;
pub enum Q { No, B(ByteQueue<'static>), S(StringQueue<'static>) }
use Q::*;
pub struct Queues { q: Vec<Q>, last: Vec<J>, prof: String, cnt: u8 }

fn piece(b: &[u8], rep: i64) -> ByteData<'static> {
    match rep {
        1 if b.len() <= 14 => ByteData::from_chunk_slice(b),
        2 => ByteData::from_borrowed(leak(b)),
        3 => { let mut x = vec![7u8]; x.extend_from_slice(b); x.push(9); let n = b.len(); ByteData::from_static(leak(&x)).into_sliced(1..n + 1) }
        _ => ByteData::from_static(leak(b)),
    }
}
fn spiece(b: &[u8], rep: i64) -> StringData<'static> { StringData::try_from_bytedata(piece(b, rep)).ok().unwrap() }
const REPS: i64 = 4;
fn eb(x: u8) -> J { json!(x) }
fn ec(x: char) -> J { json!(x as u32) }
fn eic(x: (usize, char)) -> J { json!([x.0, x.1 as u32]) }
fn ed(x: ByteData<'_>) -> J { jb(x.as_slice()) }
fn edr(x: &ByteData<'_>) -> J { jb(x.as_slice()) }
fn es(x: StringData<'_>) -> J { jb(x.as_bytes()) }
fn esr(x: &StringData<'_>) -> J { jb(x.as_bytes()) }
fn flat(q: &ByteQueue<'_>) -> J { let mut v = vec![]; for c in q.chunks() { v.extend_from_slice(c.as_slice()); } jb(&v) }
fn opn(x: Option<usize>) -> J { match x { Some(v) => jn(v), None => json!(-1) } }

impl Queues {
    pub fn new(prof: &str) -> Self {
        mem::reset(); mem::take_events();
        Queues { q: (0..NQ).map(|_| No).collect(), last: (0..NQ).map(|i| json!({"i": i + 1, "t": "no"})).collect(), prof: prof.into(), cnt: 0 }
    }
    fn proj(&self, i: usize) -> J {
        match &self.q[i] {
            No => json!({"i": i + 1, "t": "no"}),
            B(q) => { let c: Vec<J> = q.chunks().map(edr).collect(); json!({"i": i + 1, "t": "bq", "c": c, "n": jn(q.len()), "cn": jn(q.chunk_len()), "e": q.is_empty()}) }
            S(q) => { let c: Vec<J> = q.chunks().map(esr).collect(); json!({"i": i + 1, "t": "sq", "c": c, "n": jn(q.len()), "cn": jn(q.chunk_len()), "e": q.is_empty()}) }
        }
    }
    fn event(&mut self, r: J) -> J {
        let mut ch = vec![];
        for i in 0..NQ { let p = self.proj(i); if p != self.last[i] { self.last[i] = p.clone(); ch.push(p); } }
        json!({"r": r, "ch": ch, "ma": [], "mf": [], "mb": []})
    }
    fn run(&mut self, op: &J) -> J {
        let t = st(op, "op");
        let (s, d) = (n(op, "s").wrapping_sub(1), n(op, "d").wrapping_sub(1));
        let b = by(op, "b");
        let rep = ni(op, "rep");
        let how = st(op, "how");
        let m = n(op, "m");
        let ps = parts(op, "parts");
        let steps = op["steps"].as_array().cloned().unwrap_or_default();
        let set = arr(&op["set"]);
        let cset: Vec<u32> = op["set"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
        let vis: Vec<&'static [u8]> = ps.iter().map(|p| leak(p)).collect();
        let vss: Vec<&'static str> = ps.iter().map(|p| leak_str(p)).collect();
        let (vb, vs) = (leak(&b), leak_str(&b));
        let reps: Vec<i64> = (0..ps.len()).map(|i| (rep + i as i64) % REPS).collect();
        macro_rules! takeq { ($i:expr) => { std::mem::replace(&mut self.q[$i], No) }; }
        let res = catch(|| -> J {
            match t {
                "new" => {
                    let q = match (st(op, "t"), how) {
                        ("bq", "new") => B(ByteQueue::new()),
                        ("bq", "default") => B(ByteQueue::default()),
                        ("bq", "with") => B(ByteQueue::with_item(piece(&b, rep))),
                        ("bq", "from") => B(ByteQueue::from(piece(&b, rep))),
                        ("bq", "slice") => B(ByteQueue::from(vb)),
                        ("bq", "iter") => B(ps.iter().zip(&reps).map(|(p, r)| piece(p, *r)).collect()),
                        ("sq", "new") => S(StringQueue::new()),
                        ("sq", "default") => S(StringQueue::default()),
                        ("sq", "with") => S(StringQueue::with_item(spiece(&b, rep))),
                        ("sq", "from") => S(StringQueue::from(spiece(&b, rep))),
                        ("sq", "slice") => S(StringQueue::from(vs)),
                        ("sq", "iter") => S(ps.iter().zip(&reps).map(|(p, r)| spiece(p, *r)).collect()),
                        _ => panic!("harness: unknown constructor"),
                    };
                    self.q[d] = q; okn()
                }
                "drop" => { drop(takeq!(s)); okn() }
                "clone" => { let q = match &self.q[s] { No => No, B(q) => B(q.clone()), S(q) => S(q.clone()) }; self.q[d] = q; okn() }
                "conv" => {
                    let q = takeq!(s);
                    match (q, how) {
                        (B(q), "rt") => { let v: Vec<ByteData> = q.into_iter().collect(); let r = ok(json!(v.iter().map(edr).collect::<Vec<_>>())); self.q[s] = B(v.into_iter().collect()); r }
                        (S(q), "bq") => { self.q[s] = B(q.into_bytequeue()); okn() }
                        (S(q), "rt") => { let v: Vec<StringData> = q.into_iter().collect(); let r = ok(json!(v.iter().map(esr).collect::<Vec<_>>())); self.q[s] = S(v.into_iter().collect()); r }
                        (S(q), "tostr") => { let v = q.to_string(); self.q[s] = S(q); ok(jb(v.as_bytes())) }
                        (q, _) => { self.q[s] = q; json!({"k": "nosuch"}) }
                    }
                }
                "full" => ok(json!(match &self.q[s] { B(q) => q.is_full(), S(q) => q.is_full(), No => false })),
                "push" => match (&mut self.q[s], how) {
                    (B(q), "f") => { q.push_front(piece(&b, rep)); okn() }
                    (B(q), "b") => { q.push_back(piece(&b, rep)); okn() }
                    (S(q), "f") => { q.push_front(spiece(&b, rep)); okn() }
                    (S(q), "b") => { q.push_back(spiece(&b, rep)); okn() }
                    _ => json!({"k": "nosuch"}),
                },
                "pop" => {
                    let r = match (&mut self.q[s], how) {
                        (B(q), "f") => q.pop_front().map(ed), (B(q), "b") => q.pop_back().map(ed),
                        (S(q), "f") => q.pop_front().map(es), (S(q), "b") => q.pop_back().map(es), _ => None };
                    match r { Some(v) => ok(v), None => none() }
                }
                "peek" => {
                    let r = match (&self.q[s], how) {
                        (B(q), "f") => q.front().map(edr), (B(q), "b") => q.back().map(edr),
                        (S(q), "f") => q.front().map(esr), (S(q), "b") => q.back().map(esr), _ => None };
                    match r { Some(v) => ok(v), None => none() }
                }
                "append" => { let o = takeq!(d); match (&mut self.q[s], o) { (B(q), B(o)) => { q.append(o); okn() } _ => json!({"k": "nosuch"}) } }
                "extend" => match (&mut self.q[s], how) {
                    (B(q), "bd") => { q.extend(ps.iter().zip(&reps).map(|(p, r)| piece(p, *r))); okn() }
                    (B(q), "slice") => { q.extend(vis.iter().copied()); okn() }
                    (B(q), "sd") => { q.extend(ps.iter().zip(&reps).map(|(p, r)| spiece(p, *r))); okn() }
                    (B(q), "str") => { q.extend(vss.iter().copied()); okn() }
                    (S(q), "sd") => { q.extend(ps.iter().zip(&reps).map(|(p, r)| spiece(p, *r))); okn() }
                    (S(q), "str") => { q.extend(vss.iter().copied()); okn() }
                    _ => json!({"k": "nosuch"}),
                },
                "splitoff" => { let r = match &mut self.q[s] { B(q) => B(q.split_off(m)), S(q) => S(q.split_off(m)), _ => No }; self.q[d] = r; okn() }
                "drain" => match &mut self.q[s] {
                    B(q) => ok(with_range!(rg(op, "rg"), r => run_steps!(q.drain(r), &steps, eb, [exact]))),
                    S(q) => ok(with_range!(rg(op, "rg"), r => run_steps!(q.drain(r), &steps, ec, []))),
                    _ => json!({"k": "nosuch"}),
                },
                "replace" => match &mut self.q[s] {
                    B(q) => { with_range!(rg(op, "rg"), r => q.replace_range(r, piece(&b, rep))); okn() }
                    S(q) => { with_range!(rg(op, "rg"), r => q.replace_range(r, spiece(&b, rep))); okn() }
                    _ => json!({"k": "nosuch"}),
                },
                "slice" => { let r = match &self.q[s] { B(q) => B(with_range!(rg(op, "rg"), r => q.slice(r))), S(q) => S(with_range!(rg(op, "rg"), r => q.slice(r))), _ => No }; self.q[d] = r; okn() }
                "consume" => match &mut self.q[s] { B(q) => { q.consume(m); okn() } _ => json!({"k": "nosuch"}) },
                "twhile" => { let r = match &mut self.q[s] { B(q) => B(q.take_while(|x| set.contains(&x))), S(q) => S(q.take_while(|c| cset.contains(&(c as u32)))), _ => No }; self.q[d] = r; okn() }
                "tline" => { let r = match &mut self.q[s] { S(q) => S(q.take_line()), _ => No }; self.q[d] = r; okn() }
                "starts" => ok(json!(match &self.q[s] { B(q) => q.starts_with(&b), S(q) => q.starts_with(&b), _ => false })),
                "ends" => ok(json!(match &self.q[s] { B(q) => q.ends_with(&b), S(q) => q.ends_with(&b), _ => false })),
                "exists" => ok(json!(match &self.q[s] { B(q) => q.exists_at(m, &b), S(q) => q.as_bytequeue().exists_at(m, &b), _ => false })),
                "find" => ok(match &self.q[s] { B(q) => opn(q.find_slice(&b)), S(q) => opn(q.as_bytequeue().find_slice(&b)), _ => json!(-2) }),
                "finda" => ok(match &self.q[s] { B(q) => opn(q.find_slice_after(&b, m)), S(q) => opn(q.as_bytequeue().find_slice_after(&b, m)), _ => json!(-2) }),
                "findb" => ok(match &mut self.q[s] { B(q) => opn(q.find_byte(|x| set.contains(&x))), S(q) => opn(q.find_char(|c| cset.contains(&(c as u32)))), _ => json!(-2) }),
                "split" => {
                    let v: Vec<J> = match (&self.q[s], how) {
                        (B(q), "all") => q.split_on(&b).take(400).map(|x| json!([flat(&x), x.len()])).collect(),
                        (B(q), _) => q.splitn_on(&b, m).take(400).map(|x| json!([flat(&x), x.len()])).collect(),
                        (S(q), "all") => q.split_on(vs).take(400).map(|x| json!([flat(x.as_bytequeue()), x.len()])).collect(),
                        (S(q), "n") => q.splitn_on(vs, m).take(400).map(|x| json!([flat(x.as_bytequeue()), x.len()])).collect(),
                        (S(q), "ball") => q.split_on_bytes(&b).take(400).map(|x| json!([flat(&x), x.len()])).collect(),
                        (S(q), _) => q.splitn_on_bytes(&b, m).take(400).map(|x| json!([flat(&x), x.len()])).collect(),
                        _ => vec![],
                    };
                    ok(J::Array(v))
                }
                "iter" => ok(match (&self.q[s], how) {
                    (B(q), "bytes") => run_steps!(q.bytes(), &steps, eb, [skip, take, exact, inh]),
                    (B(q), "obytes") => run_steps!(q.clone().into_bytes(), &steps, eb, [skip, take, exact, inh]),
                    (B(q), "chunks") => run_steps!(q.chunks(), &steps, edr, [skip, exact]),
                    (B(q), "iter") => run_steps!(q.iter(), &steps, edr, [skip, exact]),
                    (B(q), "ref") => run_steps!(q.into_iter(), &steps, edr, [skip, exact]),
                    (B(q), "ochunks") => run_steps!(q.clone().into_iter(), &steps, ed, [back, exact]),
                    (B(q), "ichunks") => run_steps!(IntoIterator::into_iter(q.clone()), &steps, ed, [back, exact]),
                    (S(q), "bytes") => run_steps!(q.bytes(), &steps, eb, [skip, take, exact, inh]),
                    (S(q), "obytes") => run_steps!(q.clone().into_bytes(), &steps, eb, [skip, take, exact, inh]),
                    (S(q), "chunks") => run_steps!(q.chunks(), &steps, esr, [exact]),
                    (S(q), "bchunks") => run_steps!(q.byte_chunks(), &steps, edr, [skip, exact]),
                    (S(q), "ochunks") => run_steps!(q.clone().into_iter(), &steps, es, [back, exact]),
                    (S(q), "chars") => run_steps!(q.chars(), &steps, ec, []),
                    (S(q), "ochars") => run_steps!(q.clone().into_chars(), &steps, ec, []),
                    (S(q), "indices") => run_steps!(q.chars_indecies(), &steps, eic, []),
                    _ => json!("nosuch"),
                }),
                _ => json!({"k": "nosuch"}),
            }
        });
        match res { Ok(r) => r, Err(()) => pan() }
    }
}

impl crate::Suite for Queues {
    fn exec(&mut self, op: &J) -> J { let r = self.run(op); self.event(r) }
    fn finish(&mut self) -> Option<J> {
        for i in 0..NQ { self.q[i] = No; }
        let mut e = self.event(okn());
        e["op"] = json!("finish");
        mem::reset();
        Some(e)
    }
    fn gen(&mut self, r: &mut Rng, step: usize) -> Option<J> { Some(self.gen_op(r, step)) }
}

impl Queues {
    fn t(&self, i: usize) -> &'static str { match &self.q[i] { No => "no", B(_) => "bq", S(_) => "sq" } }
    fn ln(&self, i: usize) -> usize { self.last[i]["n"].as_u64().unwrap_or(0) as usize }
    fn cn(&self, i: usize) -> usize { self.last[i]["cn"].as_u64().unwrap_or(0) as usize }
    fn content(&self, i: usize) -> Vec<u8> { self.last[i]["c"].as_array().map(|a| a.iter().flat_map(arr).collect()).unwrap_or_default() }
    fn data(&mut self, r: &mut Rng, text: bool) -> Vec<u8> {
        if text { let k = if r.chance(1, 10) { 6 } else { 2 }; return gen_text(r, k); }
        let k = match r.below(12) { 0 => 0, 1 => 15, _ => r.range(1, 4) };
        (0..k).map(|_| { self.cnt = self.cnt.wrapping_add(1); self.cnt }).collect()
    }
    fn pos(&self, r: &mut Rng, s: usize) -> i64 {
        let len = self.ln(s);
        if r.chance(1, 4) { return gen_num(r, len); }
        let c: Vec<usize> = self.last[s]["c"].as_array().map(|a| a.iter().map(|x| x.as_array().map_or(0, |y| y.len())).collect()).unwrap_or_default();
        let k = r.below(c.len() + 1);
        let p: usize = c[..k].iter().sum();
        (match r.below(4) { 0 => p + 1, 1 => p.saturating_sub(1), _ => p }).min(len + 1) as i64
    }
    fn range(&self, r: &mut Rng, s: usize) -> J {
        if r.chance(1, 4) { return gen_rg(r, self.ln(s)); }
        let (a, b) = (self.pos(r, s), self.pos(r, s));
        let (a, b) = (a.min(b), a.max(b));
        let st = match r.below(8) { 0 => json!(["u", 0]), 1 if a > 0 => json!(["x", a - 1]), _ => json!(["i", a]) };
        let en = match r.below(8) { 0 => json!(["u", 0]), 1 | 2 if b > 0 => json!(["i", b - 1]), _ => json!(["x", b]) };
        json!({"s": st, "e": en})
    }
    fn plist(&mut self, r: &mut Rng, text: bool, room: usize) -> J {
        let k = match r.below(6) { 0 => room, 1 => room + 1, 2 => room.saturating_sub(1), 3 => r.range(20, 26), _ => r.below(6) };
        J::Array((0..k).map(|_| { let mut b = self.data(r, text); if b.is_empty() && r.chance(3, 4) { b = vec![b'e']; } jb(&b) }).collect())
    }
    fn gen_op(&mut self, r: &mut Rng, step: usize) -> J {
        let free: Vec<usize> = (0..NQ).filter(|i| self.t(*i) == "no").collect();
        let used: Vec<usize> = (0..NQ).filter(|i| self.t(*i) != "no").collect();
        if used.is_empty() || (!free.is_empty() && r.chance(1, if step < 2 { 2 } else { 12 })) {
            let d = *r.pick(&free) + 1;
            let t = if self.prof == "text" || r.chance(1, 4) { "sq" } else { "bq" };
            let text = t == "sq";
            let how = *r.pick(&["new", "default", "with", "from", "slice", "iter", "iter", "iter"]);
            let mut j = json!({"op": "new", "t": t, "d": d, "how": how, "rep": r.below(REPS as usize)});
            if how == "iter" { j["parts"] = self.plist(r, text, 23); }
            else { j["b"] = if matches!(how, "new" | "default") { json!([]) } else { let b = self.data(r, text); jb(&b) }; }
            return j;
        }
        let s0 = *r.pick(&used);
        let (s, text, len, cn) = (s0 + 1, self.t(s0) == "sq", self.ln(s0), self.cn(s0));
        let d = free.first().map(|x| x + 1);
        let room = 23usize.saturating_sub(cn);
        if r.chance(1, if free.is_empty() { 10 } else { 40 }) { return json!({"op": "drop", "s": s}); }
        if r.chance(1, 3) || (room <= 2 && r.chance(1, 2)) { // churn around the limit
            return match r.below(9) {
                0..=3 => { let mut b = self.data(r, text); if b.is_empty() && r.chance(9, 10) { b = vec![b'p']; } json!({"op": "push", "s": s, "how": *r.pick(&["f", "b"]), "rep": r.below(REPS as usize), "b": jb(&b)}) }
                4 | 5 => json!({"op": "pop", "s": s, "how": *r.pick(&["f", "b"])}),
                6 => json!({"op": "full", "s": s}),
                7 => json!({"op": "peek", "s": s, "how": *r.pick(&["f", "b"])}),
                _ => { let how = if text { *r.pick(&["sd", "str"]) } else { *r.pick(&["bd", "slice", "bd", "sd", "str"]) };
                    let ps = self.plist(r, text || matches!(how, "sd" | "str"), room);
                    json!({"op": "extend", "s": s, "how": how, "rep": r.below(REPS as usize), "parts": ps}) }
            };
        }
        let c = self.content(s0);
        let cs: Vec<char> = std::str::from_utf8(&c).unwrap_or("").chars().collect();
        match r.below(15) {
            0 => { let others: Vec<usize> = used.iter().copied().filter(|x| *x != s0 && self.t(*x) == "bq").collect();
                   if !text && !others.is_empty() { json!({"op": "append", "s": s, "d": *r.pick(&others) + 1}) } else { json!({"op": "full", "s": s}) } }
            1 => match d { Some(d) => json!({"op": "splitoff", "s": s, "d": d, "m": self.pos(r, s0)}), None => json!({"op": "pop", "s": s, "how": "b"}) },
            2 => { let g = self.range(r, s0); let st = if r.chance(1, 2) { json!([]) } else { gen_steps(r, len, if text { &["next", "nth", "len", "count", "last", "rest"] } else { &["next", "nth", "len", "elen", "count", "last", "rest"] }) };
                   json!({"op": "drain", "s": s, "rg": g, "steps": st}) }
            3 => { let g = self.range(r, s0); let b = self.data(r, text); json!({"op": "replace", "s": s, "rg": g, "rep": r.below(REPS as usize), "b": jb(&b)}) }
            4 => match d { Some(d) => { let g = self.range(r, s0); json!({"op": "slice", "s": s, "d": d, "rg": g}) } None => json!({"op": "pop", "s": s, "how": "f"}) },
            5 => match d { Some(d) => json!({"op": "clone", "s": s, "d": d}), None => json!({"op": "pop", "s": s, "how": "f"}) },
            6 => if text { json!({"op": "conv", "s": s, "how": *r.pick(&["bq", "rt", "tostr"])}) } else { json!({"op": "consume", "s": s, "m": self.pos(r, s0)}) },
            7 => match d { Some(d) => { if text && r.chance(1, 3) { return json!({"op": "tline", "s": s, "d": d}); }
                    let mut set: Vec<u32> = if text { let k = r.below(cs.len() + 1); cs[..k].iter().map(|c| *c as u32).collect() } else { let k = r.below(c.len() + 1); c[..k].iter().map(|c| *c as u32).collect() };
                    set.sort(); set.dedup(); json!({"op": "twhile", "s": s, "d": d, "set": set}) }
                None => json!({"op": "pop", "s": s, "how": "b"}) },
            8 => if text { json!({"op": "conv", "s": s, "how": "tostr"}) } else { json!({"op": "conv", "s": s, "how": "rt"}) },
            9 | 10 => { // searches: a piece of the content, in characters for text
                let (a, l) = if text { (r.below(cs.len() + 1), r.below(4)) } else { (r.below(c.len() + 1), r.below(6)) };
                let mut b: Vec<u8> = if text { cs[a..(a + l).min(cs.len())].iter().collect::<String>().into_bytes() } else { c[a..(a + l).min(c.len())].to_vec() };
                match r.below(6) {
                    0 => json!({"op": "find", "s": s, "b": jb(&b)}),
                    1 => json!({"op": "finda", "s": s, "b": jb(&b), "m": self.pos(r, s0)}),
                    2 => json!({"op": "exists", "s": s, "b": jb(&b), "m": self.pos(r, s0)}),
                    3 => { let l = b.len().min(c.len()); let b = if r.chance(1, 2) { c[..l].to_vec() } else { c[c.len() - l..].to_vec() }; json!({"op": *r.pick(&["starts", "ends"]), "s": s, "b": jb(&b), "m": 0}) }
                    4 => { let set: Vec<u32> = if text { if cs.is_empty() { vec![97] } else { vec![cs[r.below(cs.len())] as u32] } } else if c.is_empty() { vec![1] } else { vec![c[r.below(c.len())] as u32, 3] }; json!({"op": "findb", "s": s, "set": set}) }
                    _ => { if b.is_empty() { b = vec![b'a']; } json!({"op": "split", "s": s, "how": if text { *r.pick(&["all", "n", "ball", "bn"]) } else { *r.pick(&["all", "n"]) }, "b": jb(&b), "m": r.below(4)}) }
                } }
            11 | 12 => { let how = if text { *r.pick(&["bytes", "obytes", "chunks", "bchunks", "ochunks", "chars", "ochars", "indices"]) } else { *r.pick(&["bytes", "obytes", "chunks", "iter", "ref", "ochunks", "ichunks"]) };
                let nm: &[&str] = match how { "bytes" | "obytes" => &["next", "next", "nth", "nth", "skip", "take", "len", "elen", "count", "last", "rest"],
                    "chunks" if text => &["next", "next", "nth", "nth", "len", "elen", "count", "last", "rest"],
                    "chunks" | "iter" | "ref" | "bchunks" => &["next", "next", "nth", "nth", "skip", "len", "elen", "count", "last", "rest"],
                    "ochunks" | "ichunks" => &["next", "next", "nb", "nb", "nth", "len", "elen", "count", "last", "rest", "rev"],
                    _ => &["next", "next", "nth", "len", "count", "last", "rest"] };
                let l = if how.contains("chunk") || how == "iter" || how == "ref" { cn } else { len };
                json!({"op": "iter", "s": s, "how": how, "steps": gen_steps(r, l, nm)}) }
            _ => json!({"op": "push", "s": s, "how": *r.pick(&["f", "b"]), "rep": r.below(REPS as usize), "b": jb(&if text { gen_text(r, 2) } else { vec![b'q'] })}),
        }
    }
}
