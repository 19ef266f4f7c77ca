//! Live byte queues, string queues and byte values as streams: one public call per event.
use crate::mem;
use crate::pool::Own;
use crate::util::*;
use crate::{run_steps, with_range};
use crate::steps::gen_steps;
use bytedata::{ByteData, ByteQueue, SharedBytes, StringData, StringQueue};
use bytes::Buf;
use serde_json::Value as J;
/// The driver's own data is not part of what the library allocates.
macro_rules! json { ($($t:tt)*) => { mem::untracked(|| serde_json::json!($($t)*)) } }
use std::borrow::Cow;
use std::io::{BufRead, IoSlice, IoSliceMut, Read, Write};

pub const NQ: usize = 3;
pub enum Q {
    No,
    B(ByteQueue<'static>),
    S(StringQueue<'static>),
    D(ByteData<'static>),
    H(SharedBytes),
}
use Q::*;
pub struct Queues { q: Vec<Q>, last: Vec<J>, prof: String, long: bool, scale: usize, cnt: u8 }

/// A byte value with the given content in the given representation.
pub fn piece(b: &[u8], rep: i64) -> ByteData<'static> {
    match rep {
        1 => ByteData::from_owned(mem::tracked(|| b.to_vec())),
        2 => ByteData::from_shared(SharedBytes::from_slice(b)),
        3 => ByteData::from_external(Own::new(0, b)),
        4 if b.len() <= 14 => ByteData::from_chunk_slice(b),
        5 => { let mut x = vec![7u8]; x.extend_from_slice(b); x.push(9); let n = b.len(); ByteData::from_shared(SharedBytes::from_slice(&x)).into_sliced(1..n + 1) }
        6 => { let mut x = vec![7u8]; x.extend_from_slice(b); x.push(9); let n = b.len(); ByteData::from_external(Own::new(0, &x)).into_sliced(1..n + 1) }
        7 => ByteData::from_borrowed(leak(b)),
        _ => ByteData::from_static(leak(b)),
    }
}
pub fn spiece(b: &[u8], rep: i64) -> StringData<'static> { StringData::try_from_bytedata(piece(b, rep)).ok().unwrap() }
pub const REPS: i64 = 8;

fn eb(x: u8) -> J { json!(x) }
fn ec(x: char) -> J { json!(x as u32) }
fn eic(x: (usize, char)) -> J { json!([x.0, x.1 as u32]) }
fn ed(x: ByteData<'_>) -> J { jb(x.as_slice()) }
fn edr(x: &ByteData<'_>) -> J { jb(x.as_slice()) }
fn es(x: StringData<'_>) -> J { jb(x.as_bytes()) }
fn esr(x: &StringData<'_>) -> J { jb(x.as_bytes()) }

fn flat(q: &ByteQueue<'_>) -> J { let mut v = vec![]; for c in q.chunks() { v.extend_from_slice(c.as_slice()); } jb(&v) }
fn opn(x: Option<usize>) -> J { match x { Some(v) => jl(v), None => json!(-1) } }

impl Queues {
    pub fn new(prof: &str) -> Self {
        mem::reset(); mem::take_events();
        Queues { q: (0..NQ).map(|_| No).collect(), last: (0..NQ).map(|i| json!({"i": i + 1, "t": "no"})).collect(), prof: match prof { "long" => "", "longtext" => "text", p => p.strip_prefix("long").unwrap_or(p) }.into(), long: prof.starts_with("long"), scale: prof.strip_prefix("scaled").map_or(1, |k| k.parse().unwrap_or(4096)), cnt: 0 }
    }
    fn proj(&self, i: usize) -> J {
        let one = |t: &str, b: &[u8], n: usize, e: bool| { let c: Vec<J> = if b.is_empty() { vec![] } else { vec![jb(b)] }; let cn = c.len(); json!({"i": i + 1, "t": t, "c": c, "n": jl(n), "cn": cn, "e": e}) };
        match &self.q[i] {
            No => json!({"i": i + 1, "t": "no"}),
            B(q) => { let c: Vec<J> = q.chunks().map(edr).collect(); json!({"i": i + 1, "t": "bq", "c": c, "n": jl(q.len()), "cn": jn(q.chunk_len()), "e": q.is_empty()}) }
            S(q) => { let c: Vec<J> = q.chunks().map(esr).collect(); json!({"i": i + 1, "t": "sq", "c": c, "n": jl(q.len()), "cn": jn(q.chunk_len()), "e": q.is_empty()}) }
            D(d) => one("bd", d.as_slice(), d.len(), d.is_empty()),
            H(d) => one("sb", d.as_slice(), d.len(), d.is_empty()),
        }
    }
    fn event(&mut self, r: J) -> J {
        let evs = mem::take_events();
        let mut ch = vec![];
        for i in 0..NQ { let p = self.proj(i); if p != self.last[i] { self.last[i] = p.clone(); ch.push(p); } }
        let f = |k: u8| -> J { J::Array(evs.iter().filter(|e| e.kind == k).map(|e| json!([e.id, enc(e.size), e.align])).collect()) };
        let bad: Vec<J> = evs.iter().filter(|e| e.kind >= 3).map(|e| json!([e.id, e.kind])).collect();
        json!({"r": r, "ch": ch, "ma": f(1), "mf": f(2), "mb": bad})
    }
    fn run(&mut self, op: &J) -> J {
        let t = st(op, "op");
        let (s, d) = (n(op, "s").wrapping_sub(1), n(op, "d").wrapping_sub(1));
        let b = by(op, "b");
        let rep = ni(op, "rep");
        let how = st(op, "how");
        let m = n(op, "m");
        let ml = nl(op, "m");
        let ps = parts(op, "parts");
        let steps = op["steps"].as_array().cloned().unwrap_or_default();
        let set = arr(&op["set"]);
        let cset: Vec<u32> = op["set"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
        let vis: Vec<&'static [u8]> = ps.iter().map(|p| leak(p)).collect();
        let vss: Vec<&'static str> = ps.iter().map(|p| leak_str(p)).collect();
        let (vb, vs) = (leak(&b), leak_str(&b));
        let reps: Vec<i64> = (0..ps.len()).map(|i| (rep + i as i64) % REPS).collect();
        macro_rules! takeq { ($i:expr) => { std::mem::replace(&mut self.q[$i], No) }; }
        let res = mem::tracked(|| catch(|| -> J {
            match t {
                "new" => {
                    let q = match (st(op, "t"), how) {
                        ("bq", "new") => B(ByteQueue::new()),
                        ("bq", "default") => B(ByteQueue::default()),
                        ("bq", "with") => B(ByteQueue::with_item(piece(&b, rep))),
                        ("bq", "from") => B(ByteQueue::from(piece(&b, rep))),
                        ("bq", "slice") => B(ByteQueue::from(vb)),
                        ("bq", "vec") => B(ByteQueue::from(b.to_vec())),
                        ("bq", "string") => B(ByteQueue::from(String::from(vs))),
                        ("bq", "cow") => B(ByteQueue::from(Cow::Borrowed(vb))),
                        ("bq", "cowo") => B(ByteQueue::from(Cow::<[u8]>::Owned(b.to_vec()))),
                        ("bq", "cows") => B(ByteQueue::from(Cow::Borrowed(vs))),
                        ("bq", "cowso") => B(ByteQueue::from(Cow::<str>::Owned(vs.to_string()))),
                        ("bq", "bytes") => B(ByteQueue::from(bytes::Bytes::copy_from_slice(&b))),
                        ("bq", "iter") => B(ps.iter().zip(&reps).map(|(p, r)| piece(p, *r)).collect()),
                        ("sq", "new") => S(StringQueue::new()),
                        ("sq", "default") => S(StringQueue::default()),
                        ("sq", "with") => S(StringQueue::with_item(spiece(&b, rep))),
                        ("sq", "from") => S(StringQueue::from(spiece(&b, rep))),
                        ("sq", "slice") => S(StringQueue::from(vs)),
                        ("sq", "string") => S(StringQueue::from(String::from(vs))),
                        ("sq", "cows") => S(StringQueue::from(Cow::Borrowed(vs))),
                        ("sq", "cowso") => S(StringQueue::from(Cow::<str>::Owned(vs.to_string()))),
                        ("sq", "iter") => S(ps.iter().zip(&reps).map(|(p, r)| spiece(p, *r)).collect()),
                        ("bd", _) => D(piece(&b, rep)),
                        ("sb", _) => H(SharedBytes::from_slice(&b)),
                        _ => panic!("harness: unknown constructor"),
                    };
                    self.q[d] = q; okn()
                }
                "drop" => { drop(takeq!(s)); okn() }
                "clone" => { let q = match &self.q[s] { No => No, B(q) => B(q.clone()), S(q) => S(q.clone()), D(x) => D(x.clone()), H(x) => H(x.clone()) }; self.q[d] = q; okn() }
                "conv" => {
                    let q = takeq!(s);
                    match (q, how) {
                        (B(q), "vec") => { let v: Vec<u8> = q.into(); ok(jb(&v)) }
                        (B(q), "bd") => { let v: ByteData = q.into(); let r = ok(jb(v.as_slice())); self.q[s] = D(v); r }
                        (B(q), "sb") => { let v: SharedBytes = q.into(); let r = ok(jb(v.as_slice())); self.q[s] = H(v); r }
                        (B(q), "bytes") => { let v: bytes::Bytes = q.into(); ok(jb(&v)) }
                        (B(q), "rt") => { let v: Vec<ByteData> = q.into_iter().collect(); let r = ok(json!(v.iter().map(edr).collect::<Vec<_>>())); self.q[s] = B(v.into_iter().collect()); r }
                        (S(q), "string") => { let v: String = q.into(); ok(jb(v.as_bytes())) }
                        (S(q), "sd") => { let v: StringData = q.into(); ok(jb(v.as_bytes())) }
                        (S(q), "bq") => { self.q[s] = B(q.into_bytequeue()); okn() }
                        (S(q), "rt") => { let v: Vec<StringData> = q.into_iter().collect(); let r = ok(json!(v.iter().map(esr).collect::<Vec<_>>())); self.q[s] = S(v.into_iter().collect()); r }
                        (S(q), "tostr") => { let v = q.to_string(); self.q[s] = S(q); ok(jb(v.as_bytes())) }
                        (q, _) => { self.q[s] = q; json!({"k": "nosuch"}) }
                    }
                }
                "push" => match (&mut self.q[s], how) {
                    (B(q), "f") => { q.push_front(piece(&b, rep)); okn() }
                    (B(q), "b") => { q.push_back(piece(&b, rep)); okn() }
                    (S(q), "f") => { q.push_front(spiece(&b, rep)); okn() }
                    (S(q), "b") => { q.push_back(spiece(&b, rep)); okn() }
                    _ => json!({"k": "nosuch"}),
                },
                "pop" => {
                    let r = match (&mut self.q[s], how) {
                        (B(q), "f") => q.pop_front().map(ed), (B(q), "b") => q.pop_back().map(ed),
                        (S(q), "f") => q.pop_front().map(es), (S(q), "b") => q.pop_back().map(es), _ => None };
                    match r { Some(v) => ok(v), None => none() }
                }
                "peek" => {
                    let r = match (&self.q[s], how) {
                        (B(q), "f") => q.front().map(edr), (B(q), "b") => q.back().map(edr),
                        (S(q), "f") => q.front().map(esr), (S(q), "b") => q.back().map(esr), _ => None };
                    match r { Some(v) => ok(v), None => none() }
                }
                "append" => { let o = takeq!(d); match (&mut self.q[s], o) { (B(q), B(o)) => { q.append(o); okn() } _ => json!({"k": "nosuch"}) } }
                "extend" => match (&mut self.q[s], how) {
                    (B(q), "bd") => { q.extend(ps.iter().zip(&reps).map(|(p, r)| piece(p, *r))); okn() }
                    (B(q), "slice") => { q.extend(vis.iter().copied()); okn() }
                    (B(q), "vec") => { q.extend(ps.iter().map(|p| p.to_vec())); okn() }
                    (B(q), "sd") => { q.extend(ps.iter().zip(&reps).map(|(p, r)| spiece(p, *r))); okn() }
                    (B(q), "str") => { q.extend(vss.iter().copied()); okn() }
                    (B(q), "string") => { q.extend(vss.iter().map(|s| s.to_string())); okn() }
                    (S(q), "sd") => { q.extend(ps.iter().zip(&reps).map(|(p, r)| spiece(p, *r))); okn() }
                    (S(q), "str") => { q.extend(vss.iter().copied()); okn() }
                    (S(q), "string") => { q.extend(vss.iter().map(|s| s.to_string())); okn() }
                    (B(q), "fmt") => { use std::fmt::Write; for s in &vss { q.write_str(s).unwrap(); } okn() }
                    (S(q), "fmt") => { use std::fmt::Write; for s in &vss { q.write_str(s).unwrap(); } okn() }
                    _ => json!({"k": "nosuch"}),
                },
                "splitoff" => { let r = match &mut self.q[s] { B(q) => B(q.split_off(ml)), S(q) => S(q.split_off(ml)), _ => No }; self.q[d] = r; okn() }
                "drain" => match &mut self.q[s] {
                    B(q) => ok(with_range!(rg(op, "rg"), r => run_steps!(q.drain(r), &steps, eb, [exact]))),
                    S(q) => ok(with_range!(rg(op, "rg"), r => run_steps!(q.drain(r), &steps, ec, []))),
                    _ => json!({"k": "nosuch"}),
                },
                "replace" => match &mut self.q[s] {
                    B(q) => { with_range!(rg(op, "rg"), r => q.replace_range(r, piece(&b, rep))); okn() }
                    S(q) => { with_range!(rg(op, "rg"), r => q.replace_range(r, spiece(&b, rep))); okn() }
                    _ => json!({"k": "nosuch"}),
                },
                "slice" => { let r = match &self.q[s] { B(q) => B(with_range!(rg(op, "rg"), r => q.slice(r))), S(q) => S(with_range!(rg(op, "rg"), r => q.slice(r))), _ => No }; self.q[d] = r; okn() }
                "consume" => match &mut self.q[s] {
                    B(q) => { match how { "io" => BufRead::consume(q, ml), "adv" => Buf::advance(q, ml), _ => q.consume(ml) }; okn() }
                    D(q) => { match how { "adv" => Buf::advance(q, ml), _ => BufRead::consume(q, ml) }; okn() }
                    H(q) => { match how { "adv" => Buf::advance(q, ml), _ => BufRead::consume(q, ml) }; okn() }
                    _ => json!({"k": "nosuch"}),
                },
                "twhile" => { let r = match &mut self.q[s] { B(q) => B(q.take_while(|x| set.contains(&x))), S(q) => S(q.take_while(|c| cset.contains(&(c as u32)))), _ => No }; self.q[d] = r; okn() }
                "tline" => { let r = match &mut self.q[s] { S(q) => S(q.take_line()), _ => No }; self.q[d] = r; okn() }
                // ---- queries ----
                "full" => ok(json!(match &self.q[s] { B(q) => q.is_full(), S(q) => q.is_full(), _ => return json!({"k": "nosuch"}) })),
                "starts" => ok(json!(match &self.q[s] { B(q) => q.starts_with(&b), S(q) => q.starts_with(&b), _ => false })),
                "ends" => ok(json!(match &self.q[s] { B(q) => q.ends_with(&b), S(q) => q.ends_with(&b), _ => false })),
                "exists" => ok(json!(match &self.q[s] { B(q) => q.exists_at(ml, &b), S(q) => q.as_bytequeue().exists_at(ml, &b), _ => false })),
                "find" => ok(match &self.q[s] { B(q) => opn(q.find_slice(&b)), S(q) => opn(q.as_bytequeue().find_slice(&b)), _ => json!(-2) }),
                "finda" => ok(match &self.q[s] { B(q) => opn(q.find_slice_after(&b, ml)), S(q) => opn(q.as_bytequeue().find_slice_after(&b, ml)), _ => json!(-2) }),
                "findb" => ok(match &mut self.q[s] { B(q) => opn(q.find_byte(|x| set.contains(&x))), S(q) => opn(q.find_char(|c| cset.contains(&(c as u32)))), _ => json!(-2) }),
                "split" => {
                    // before every step: how many steps the iterator says are left
                    macro_rules! pieces { ($it:expr, $f:expr) => {{
                        let (mut it, mut v, mut h) = ($it, vec![], vec![]);
                        loop { let (lo, hi) = it.size_hint(); h.push(json!([jn(lo), hi.map_or(-1, |x| x.min(1_000_000) as i64)])); if v.len() >= 4000 { break; } match it.next() { Some(x) => v.push($f(x)), None => break } }
                        (v, h)
                    }}; }
                    let (v, h): (Vec<J>, Vec<J>) = match (&self.q[s], how) {
                        (B(q), "all") => pieces!(q.split_on(&b), |x: ByteQueue| json!([flat(&x), jl(x.len())])),
                        (B(q), _) => pieces!(q.splitn_on(&b, m), |x: ByteQueue| json!([flat(&x), jl(x.len())])),
                        (S(q), "all") => pieces!(q.split_on(vs), |x: StringQueue| json!([flat(x.as_bytequeue()), jl(x.len())])),
                        (S(q), "n") => pieces!(q.splitn_on(vs, m), |x: StringQueue| json!([flat(x.as_bytequeue()), jl(x.len())])),
                        (S(q), "ball") => pieces!(q.split_on_bytes(&b), |x: ByteQueue| json!([flat(&x), jl(x.len())])),
                        (S(q), _) => pieces!(q.splitn_on_bytes(&b, m), |x: ByteQueue| json!([flat(&x), jl(x.len())])),
                        _ => (vec![], vec![]),
                    };
                    let mut r = ok(J::Array(v));
                    r["h"] = J::Array(h);
                    r
                }
                "iter" => ok(match (&self.q[s], how) {
                    (B(q), "bytes") => run_steps!(q.bytes(), &steps, eb, [skip, take, exact, inh]),
                    (B(q), "obytes") => run_steps!(q.clone().into_bytes(), &steps, eb, [skip, take, exact, inh]),
                    (B(q), "chunks") => run_steps!(q.chunks(), &steps, edr, [skip, exact]),
                    (B(q), "iter") => run_steps!(q.iter(), &steps, edr, [skip, exact]),
                    (B(q), "ref") => run_steps!(q.into_iter(), &steps, edr, [skip, exact]),
                    (B(q), "ochunks") => run_steps!(q.clone().into_iter(), &steps, ed, [back, exact]),
                    (B(q), "ichunks") => run_steps!(IntoIterator::into_iter(q.clone()), &steps, ed, [back, exact]),
                    (S(q), "bytes") => run_steps!(q.bytes(), &steps, eb, [skip, take, exact, inh]),
                    (S(q), "obytes") => run_steps!(q.clone().into_bytes(), &steps, eb, [skip, take, exact, inh]),
                    (S(q), "chunks") => run_steps!(q.chunks(), &steps, esr, [exact]),
                    (S(q), "bchunks") => run_steps!(q.byte_chunks(), &steps, edr, [skip, exact]),
                    (S(q), "ochunks") => run_steps!(q.clone().into_iter(), &steps, es, [back, exact]),
                    (S(q), "chars") => run_steps!(q.chars(), &steps, ec, []),
                    (S(q), "ochars") => run_steps!(q.clone().into_chars(), &steps, ec, []),
                    (S(q), "indices") => run_steps!(q.chars_indecies(), &steps, eic, []),
                    _ => json!("nosuch"),
                }),
                // ---- standard I/O ----
                "read" => {
                    let mut buf = vec![0xA5u8; ml];
                    let r = match &mut self.q[s] { B(q) => q.read(&mut buf), D(q) => q.read(&mut buf), H(q) => q.read(&mut buf), _ => return json!({"k": "nosuch"}) };
                    match r { Ok(k) => ok(json!([jl(k), jb(&buf[..k.min(ml)])])), Err(_) => json!({"k": "err"}) }
                }
                "readv" => {
                    let ms = nums(op, "ms").iter().map(|x| x * scale()).collect::<Vec<_>>();
                    let mut bufs: Vec<Vec<u8>> = ms.iter().map(|k| vec![0xA5u8; *k]).collect();
                    let r = { let mut io: Vec<IoSliceMut> = bufs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
                        match &mut self.q[s] { B(q) => q.read_vectored(&mut io), D(q) => q.read_vectored(&mut io), H(q) => q.read_vectored(&mut io), _ => return json!({"k": "nosuch"}) } };
                    let all: Vec<u8> = bufs.concat();
                    match r { Ok(k) => ok(json!([jl(k), jb(&all[..k.min(all.len())])])), Err(_) => json!({"k": "err"}) }
                }
                "readex" => {
                    let mut buf = vec![0xA5u8; ml];
                    let r = match &mut self.q[s] { B(q) => q.read_exact(&mut buf), D(q) => q.read_exact(&mut buf), H(q) => q.read_exact(&mut buf), _ => return json!({"k": "nosuch"}) };
                    match r { Ok(()) => ok(jb(&buf)), Err(_) => json!({"k": "err"}) }
                }
                "readend" => {
                    let mut buf = b.clone();
                    let r = match &mut self.q[s] { B(q) => q.read_to_end(&mut buf), D(q) => q.read_to_end(&mut buf), H(q) => q.read_to_end(&mut buf), _ => return json!({"k": "nosuch"}) };
                    match r { Ok(k) => ok(json!([jl(k), jb(&buf)])), Err(_) => json!({"k": "err"}) }
                }
                "readstr" | "readline" => {
                    let mut buf = String::from(vs);
                    let r = match (&mut self.q[s], t) { (B(q), "readstr") => q.read_to_string(&mut buf), (D(q), "readstr") => q.read_to_string(&mut buf), (H(q), "readstr") => q.read_to_string(&mut buf),
                        (B(q), _) => q.read_line(&mut buf), (D(q), _) => q.read_line(&mut buf), (H(q), _) => q.read_line(&mut buf), _ => return json!({"k": "nosuch"}) };
                    match r { Ok(k) => ok(json!([jl(k), jb(buf.as_bytes())])), Err(_) => json!({"k": "err", "v": jb(buf.as_bytes())}) }
                }
                "until" => {
                    let mut buf = b.clone();
                    let r = match &mut self.q[s] { B(q) => q.read_until(m as u8, &mut buf), D(q) => q.read_until(m as u8, &mut buf), H(q) => q.read_until(m as u8, &mut buf), _ => return json!({"k": "nosuch"}) };
                    match r { Ok(k) => ok(json!([jl(k), jb(&buf)])), Err(_) => json!({"k": "err"}) }
                }
                "fill" => {
                    let r = match (&mut self.q[s], how) { (B(q), "io") => q.fill_buf().map(jb), (D(q), "io") => q.fill_buf().map(jb), (H(q), "io") => q.fill_buf().map(jb),
                        (B(q), _) => Ok(jb(q.chunk())), (D(q), _) => Ok(jb(q.chunk())), (H(q), _) => Ok(jb(q.chunk())), _ => return json!({"k": "nosuch"}) };
                    match r { Ok(v) => ok(v), Err(_) => json!({"k": "err"}) }
                }
                "write" => match (&mut self.q[s], how) {
                    (B(q), "w") => match q.write(&b) { Ok(k) => ok(jl(k)), Err(_) => json!({"k": "err"}) },
                    (B(q), "all") => match q.write_all(&b) { Ok(()) => ok(jl(b.len())), Err(_) => json!({"k": "err"}) },
                    (B(q), "v") => { let io: Vec<IoSlice> = ps.iter().map(|p| IoSlice::new(p)).collect(); match q.write_vectored(&io) { Ok(k) => ok(jl(k)), Err(_) => json!({"k": "err"}) } }
                    (B(q), "flush") => match q.flush() { Ok(()) => ok(json!(0)), Err(_) => json!({"k": "err"}) },
                    _ => json!({"k": "nosuch"}),
                },
                // ---- bytes crate ----
                "buf" => ok(match &self.q[s] { B(q) => json!([jl(q.remaining()), q.has_remaining()]), D(q) => json!([jl(q.remaining()), q.has_remaining()]), H(q) => json!([jl(q.remaining()), q.has_remaining()]), _ => json!("nosuch") }),
                "ctb" => { let v = match &mut self.q[s] { B(q) => q.copy_to_bytes(ml), D(q) => q.copy_to_bytes(ml), H(q) => q.copy_to_bytes(ml), _ => return json!({"k": "nosuch"}) }; ok(jb(&v)) }
                "cts" => { let mut v = vec![0xA5; ml]; match &mut self.q[s] { B(q) => q.copy_to_slice(&mut v), D(q) => q.copy_to_slice(&mut v), H(q) => q.copy_to_slice(&mut v), _ => return json!({"k": "nosuch"}) }; ok(jb(&v)) }
                "chv" => {
                    let mut io = vec![IoSlice::new(&[]); m];
                    let k = match &self.q[s] { B(q) => q.chunks_vectored(&mut io), D(q) => q.chunks_vectored(&mut io), H(q) => q.chunks_vectored(&mut io), _ => return json!({"k": "nosuch"}) };
                    ok(J::Array(io[..k.min(m)].iter().map(|x| jb(x)).collect()))
                }
                "getu" => { let v = match &mut self.q[s] { B(q) => q.get_u16(), D(q) => q.get_u16(), H(q) => q.get_u16(), _ => return json!({"k": "nosuch"}) }; ok(json!(v)) }
                _ => json!({"k": "nosuch"}),
            }
        }));
        // results built while tracking was on are copied, and gone before the event is recorded
        let r = match &res { Ok(r) => mem::untracked(|| r.clone()), Err(()) => pan() };
        drop(res);
        r
    }
}

impl crate::Suite for Queues {
    fn exec(&mut self, op: &J) -> J { set_scale(self.scale); let r = self.run(op); let e = self.event(r); set_scale(1); e }
    fn finish(&mut self) -> Option<J> {
        for i in 0..NQ { let v = std::mem::replace(&mut self.q[i], No); let _ = mem::tracked(|| catch(|| drop(v))); }
        set_scale(self.scale);
        let mut e = self.event(okn());
        set_scale(1);
        e["op"] = json!("finish");
        mem::reset();
        Some(e)
    }
    fn gen(&mut self, r: &mut Rng, step: usize) -> Option<J> { Some(self.gen_op(r, step)) }
}

impl Queues {
    fn t(&self, i: usize) -> &'static str { match &self.q[i] { No => "no", B(_) => "bq", S(_) => "sq", D(_) => "bd", H(_) => "sb" } }
    fn ln(&self, i: usize) -> usize { self.last[i]["n"].as_u64().unwrap_or(0) as usize }
    fn content(&self, i: usize) -> Vec<u8> { self.last[i]["c"].as_array().map(|a| a.iter().flat_map(arr).collect()).unwrap_or_default() }
    fn blob(&mut self, r: &mut Rng, k: usize) -> Vec<u8> {
        let small = self.prof.starts_with("search") || r.chance(1, 4);
        let mut v = Vec::with_capacity(k);
        for _ in 0..k { self.cnt = self.cnt.wrapping_add(1); v.push(if small { b'a' + r.below(2) as u8 } else if r.chance(1, 20) { 10 } else { self.cnt }); }
        v
    }
    fn ascii(&mut self, r: &mut Rng, max: usize) -> Vec<u8> { let k = r.below(max + 1); (0..k).map(|_| b'a' + r.below(3) as u8).collect() }
    fn data(&mut self, r: &mut Rng, text: bool) -> Vec<u8> {
        if self.scale > 1 && text { return self.ascii(r, 6); }
        if self.long && r.chance(1, 3) { let k = *r.pick(&[127usize, 128, 255, 256, 257, 300, 600, 1030]); return if text { gen_text(r, k) } else { self.blob(r, k) }; }
        if text { if r.chance(1, 10) { gen_text(r, 12) } else { gen_text(r, 4) } } else {
            let k = match r.below(10) { 0 => 0, 1 | 2 => 1, 3 => r.range(13, 20), _ => r.range(1, 6) };
            self.blob(r, k)
        }
    }
    fn plist(&mut self, r: &mut Rng, text: bool) -> Vec<Vec<u8>> {
        let k = match r.below(6) { 0 => 0, 1 => 1, 2 => r.range(12, 20), 3 => r.range(28, 34), _ => r.range(2, 6) };
        (0..k).map(|_| if text && self.scale > 1 { self.ascii(r, 2) } else if text { gen_text(r, 2) } else { let l = r.below(4); self.blob(r, l) }).collect()
    }
    fn pos(&self, r: &mut Rng, s: usize) -> i64 {
        // positions near chunk borders are the interesting ones
        let len = self.ln(s);
        if r.chance(1, 3) { return gen_num(r, len); }
        let c = self.last[s]["c"].as_array().map(|a| a.iter().map(|x| x.as_array().map_or(0, |y| y.len())).collect::<Vec<_>>()).unwrap_or_default();
        if c.is_empty() { return gen_num(r, len); }
        let k = r.below(c.len() + 1);
        let p: usize = c[..k].iter().sum();
        let p = match r.below(4) { 0 => p + 1, 1 => p.saturating_sub(1), _ => p };
        (p.min(len + 1)) as i64
    }
    fn range(&self, r: &mut Rng, s: usize) -> J {
        if r.chance(1, 4) { return gen_rg(r, self.ln(s)); }
        let (a, b) = (self.pos(r, s), self.pos(r, s));
        let (a, b) = if r.chance(9, 10) { (a.min(b), a.max(b)) } else { (a, b) };
        let st = match r.below(8) { 0 => json!(["u", 0]), 1 if a > 0 => json!(["x", a - 1]), _ => json!(["i", a]) };
        let en = match r.below(8) { 0 => json!(["u", 0]), 1 | 2 if b > 0 => json!(["i", b - 1]), _ => json!(["x", b]) };
        json!({"s": st, "e": en})
    }
    fn needle(&mut self, r: &mut Rng, s: usize, text: bool) -> Vec<u8> {
        let b = self.content(s);
        if r.chance(1, 8) { return vec![]; }
        if text {
            let cs: Vec<char> = std::str::from_utf8(&b).unwrap_or("").chars().collect();
            if cs.is_empty() || r.chance(1, 5) { return gen_text(r, 2); }
            let a = r.below(cs.len()); let e = r.range(a, (a + 4).min(cs.len()));
            return cs[a..e].iter().collect::<String>().into_bytes();
        }
        if b.is_empty() || r.chance(1, 5) { let l = r.below(4); return self.blob(r, l); }
        let a = r.below(b.len()); let l = if r.chance(1, 6) { 20 } else { 4 }; let e = r.range(a, (a + l).min(b.len()));
        let mut x = b[a..e].to_vec();
        if r.chance(1, 8) && !x.is_empty() { let k = x.len() - 1; x[k] ^= 1; }
        x
    }
    fn gen_op(&mut self, r: &mut Rng, step: usize) -> J {
        let free: Vec<usize> = (0..NQ).filter(|i| self.t(*i) == "no").collect();
        let used: Vec<usize> = (0..NQ).filter(|i| self.t(*i) != "no").collect();
        let prof = if self.scale > 1 { "scaled".to_string() } else { self.prof.clone() };
        if used.is_empty() || (!free.is_empty() && r.chance(if step < 2 { 1 } else { 1 }, if step < 2 { 2 } else { 8 })) {
            let d = *r.pick(&free) + 1;
            let t = match prof.as_str() { "text" | "searcht" => "sq", "scaled" => *r.pick(&["bq", "bq", "bq", "bd", "sb"]), "io" | "buf" => *r.pick(&["bq", "bq", "bd", "sb"]), "mix" => *r.pick(&["bq", "sq"]), _ => "bq" };
            let text = t == "sq";
            let how = match t { "bq" => *r.pick(&["new", "default", "with", "from", "slice", "vec", "string", "cow", "cowo", "cows", "cowso", "bytes", "iter", "iter", "iter"]), "sq" => *r.pick(&["new", "default", "with", "from", "slice", "string", "cows", "cowso", "iter", "iter", "iter"]), _ => "piece" };
            let mut j = json!({"op": "new", "t": t, "d": d, "how": how, "rep": r.below(REPS as usize)});
            if how == "iter" { let ps = self.plist(r, text); j["parts"] = J::Array(ps.iter().map(|p| jb(p)).collect()); }
            else { let tx = text || matches!(how, "string" | "cows" | "cowso"); j["b"] = if matches!(how, "new" | "default") { json!([]) } else { let b = if !tx && prof == "io" && r.chance(1, 2) { gen_text(r, 8) } else { self.data(r, tx) }; jb(&b) }; }
            return j;
        }
        let s0 = *r.pick(&used);
        let (s, t, len) = (s0 + 1, self.t(s0), self.ln(s0));
        let text = t == "sq";
        let d = free.first().map(|x| x + 1);
        if r.chance(1, if free.is_empty() { 8 } else { 25 }) { return json!({"op": "drop", "s": s}); }
        let clen = self.last[s0]["cn"].as_u64().unwrap_or(0) as usize;
        let io: &[u8] = &[20, 21, 22, 23, 24, 25, 26, 27, 28];
        let bf: &[u8] = &[30, 31, 32, 33, 34, 9, 28];
        let query: &[u8] = &[10, 11, 12, 13, 14, 15, 16];
        let stream = t == "bd" || t == "sb";
        let k = if stream { if prof == "scaled" { *r.pick(&[20u8, 21, 22, 23, 27, 28, 9, 30, 31, 32, 33]) } else if prof == "buf" { *r.pick(bf) } else { *r.pick(io) } } else {
            match prof.as_str() {
                "io" => if r.chance(1, 2) { *r.pick(io) } else { *r.pick(&[0u8, 0, 2, 29, 29, 3]) },
                "buf" => if r.chance(1, 2) { *r.pick(bf) } else { *r.pick(&[0u8, 0, 1, 2, 3, 35]) },
                "search" | "searcht" => if r.chance(3, 4) { *r.pick(query) } else { *r.pick(&[0u8, 0, 2, 1, 4, 7]) },
                "scaled" => *r.pick(&[0u8, 0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 15, 17, 18, 20, 21, 22, 23, 27, 28, 29, 29, 30, 31, 31, 32, 33]),
                "iter" => if r.chance(3, 4) { 16 } else { *r.pick(&[0u8, 2, 1, 7]) },
                _ => *r.pick(&[0u8, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 4, 5, 5, 6, 6, 6, 7, 7, 8, 9, 9, 17, 18, 18, 19, 16, 35]),
            }
        };
        match k {
            0 => { let b = self.data(r, text); json!({"op": "push", "s": s, "how": *r.pick(&["f", "b"]), "rep": r.below(REPS as usize), "b": jb(&b)}) }
            1 => json!({"op": "pop", "s": s, "how": *r.pick(&["f", "b"])}),
            2 => { let ps0 = self.plist(r, true); let how = if text { *r.pick(&["sd", "str", "string", "fmt"]) } else { *r.pick(&["bd", "slice", "vec", "bd", "sd", "str", "string", "fmt"]) };
                   let ps = if text || matches!(how, "sd" | "str" | "string" | "fmt") { ps0 } else { self.plist(r, false) };
                   json!({"op": "extend", "s": s, "how": how, "rep": r.below(REPS as usize), "parts": ps.iter().map(|p| jb(p)).collect::<Vec<_>>()}) }
            3 => { let others: Vec<usize> = used.iter().copied().filter(|x| *x != s0 && self.t(*x) == "bq").collect();
                   if t == "bq" && !others.is_empty() { json!({"op": "append", "s": s, "d": *r.pick(&others) + 1}) } else { json!({"op": "peek", "s": s, "how": *r.pick(&["f", "b"])}) } }
            4 => match d { Some(d) => json!({"op": "splitoff", "s": s, "d": d, "m": self.pos(r, s0)}), None => json!({"op": "pop", "s": s, "how": "b"}) },
            5 => { let g = self.range(r, s0); let st = gen_steps(r, len, if text { &["next", "next", "nth", "len", "count", "last", "rest"] } else { &["next", "next", "nth", "len", "elen", "count", "last", "rest"] });
                   let st = if self.scale > 1 || r.chance(1, 3) { json!([]) } else { st };
                   json!({"op": "drain", "s": s, "rg": g, "steps": st}) }
            6 => { let g = self.range(r, s0); let b = self.data(r, text); json!({"op": "replace", "s": s, "rg": g, "rep": r.below(REPS as usize), "b": jb(&b)}) }
            7 => match d { Some(d) => { let g = self.range(r, s0); json!({"op": "slice", "s": s, "d": d, "rg": g}) } None => json!({"op": "peek", "s": s, "how": *r.pick(&["f", "b"])}) },
            8 => match d { Some(d) => json!({"op": "clone", "s": s, "d": d}), None => json!({"op": "peek", "s": s, "how": *r.pick(&["f", "b"])}) },
            9 | 28 => if text { json!({"op": "pop", "s": s, "how": "f"}) } else { let m = if k == 28 && r.chance(1, 2) { len.min(1) as i64 } else { self.pos(r, s0) }; json!({"op": "consume", "s": s, "how": if k == 28 { "io" } else { *r.pick(&["q", "adv"]) }, "m": m}) },
            17 => match d { Some(d) => { let c = self.content(s0);
                    if text { if r.chance(1, 3) { return json!({"op": "tline", "s": s, "d": d}); }
                        let cs: Vec<char> = std::str::from_utf8(&c).unwrap_or("").chars().collect(); let k = r.below(cs.len() + 1); let mut set: Vec<u32> = cs[..k].iter().map(|c| *c as u32).collect(); set.sort(); set.dedup(); json!({"op": "twhile", "s": s, "d": d, "set": set}) }
                    else { let k = r.below(c.len() + 1); let mut set = c[..k].to_vec(); set.sort(); set.dedup(); json!({"op": "twhile", "s": s, "d": d, "set": set}) } }
                None => json!({"op": "peek", "s": s, "how": "b"}) },
            18 => json!({"op": "conv", "s": s, "how": if text { *r.pick(&["string", "sd", "bq", "rt", "rt", "tostr"]) } else { *r.pick(&["vec", "bd", "sb", "bytes", "rt", "rt", "rt"]) }}),
            19 if r.chance(1, 4) && (t == "bq" || t == "sq") => json!({"op": "full", "s": s}),
            19 => json!({"op": "peek", "s": s, "how": *r.pick(&["f", "b"])}),
            35 => { let ends = r.chance(1, 2); json!({"op": "pop", "s": s, "how": if ends { "f" } else { "b" }}) }
            10 | 11 => { let c = self.content(s0); let nd = self.needle(r, s0, text); let l = nd.len().min(c.len());
                let b = match r.below(4) { 0 => c[..l].to_vec(), 1 => c[c.len() - l..].to_vec(), _ => nd };
                let op = *r.pick(&["starts", "ends", "exists"]); json!({"op": op, "s": s, "b": jb(&b), "m": if r.chance(1, 2) { r.below(len + 2) as i64 } else { self.pos(r, s0) }}) }
            12 => { let b = self.needle(r, s0, false); json!({"op": "find", "s": s, "b": jb(&b)}) }
            13 => { let b = self.needle(r, s0, false); let m = if r.chance(1, 2) { self.pos(r, s0) } else { r.below(len + 3) as i64 }; json!({"op": "finda", "s": s, "b": jb(&b), "m": m}) }
            14 => { let c = self.content(s0); let set: Vec<u32> = if text { let cs: Vec<char> = std::str::from_utf8(&c).unwrap_or("").chars().collect(); if cs.is_empty() { vec![97] } else { vec![cs[r.below(cs.len())] as u32] } } else if c.is_empty() { vec![1] } else { vec![c[r.below(c.len())] as u32, 3] };
                    json!({"op": "findb", "s": s, "set": set}) }
            15 => { let how = if text { *r.pick(&["all", "n", "ball", "bn"]) } else { *r.pick(&["all", "n"]) };
                    let mut b = self.needle(r, s0, text && !how.starts_with('b')); if b.is_empty() { b = vec![b'a']; }
                    json!({"op": "split", "s": s, "how": how, "b": jb(&b), "m": match r.below(4) { 0 => 0, 1 => 1, _ => r.below(5) }}) }
            16 => { let how = if text { *r.pick(&["bytes", "obytes", "chunks", "bchunks", "ochunks", "chars", "chars", "ochars", "indices", "indices"]) } else { *r.pick(&["bytes", "bytes", "obytes", "obytes", "chunks", "iter", "ref", "ochunks", "ichunks"]) };
                    let nm: &[&str] = match how { "bytes" | "obytes" => &["next", "next", "nth", "nth", "skip", "take", "len", "elen", "emp", "count", "last", "rest"],
                        "chunks" if text => &["next", "next", "nth", "nth", "len", "elen", "count", "last", "rest"],
                        "chunks" | "iter" | "ref" | "bchunks" => &["next", "next", "nth", "nth", "skip", "len", "elen", "count", "last", "rest"],
                        "ochunks" | "ichunks" => &["next", "next", "nb", "nb", "nth", "len", "elen", "count", "last", "rest", "rev"],
                        _ => &["next", "next", "nth", "len", "count", "last", "rest"] };
                    let l = if how.contains("chunk") || how == "iter" || how == "ref" { clen } else { len };
                    json!({"op": "iter", "s": s, "how": how, "steps": gen_steps(r, l, nm)}) }
            20 => json!({"op": "read", "s": s, "m": match r.below(5) { 0 => len, 1 => len + r.range(1, 9), 2 => 0, _ => r.below(len + 2) }}),
            21 => { let k = r.below(5); let ms: Vec<usize> = (0..k).map(|_| match r.below(5) { 0 => 0, 1 => len + 1, _ => r.below(6) }).collect(); json!({"op": "readv", "s": s, "ms": ms}) }
            22 => json!({"op": "readex", "s": s, "m": r.below(len + 2)}),
            23 => { let b = self.data(r, false); json!({"op": "readend", "s": s, "b": jb(&b)}) }
            24 => { let b = gen_text(r, 2); json!({"op": *r.pick(&["readstr", "readline", "readline"]), "s": s, "b": jb(&b)}) }
            25 | 26 => { let c = self.content(s0); let m = if c.is_empty() || r.chance(1, 4) { 10 } else { c[r.below(c.len())] }; let b = self.data(r, false); json!({"op": "until", "s": s, "m": m, "b": jb(&b)}) }
            27 => json!({"op": "fill", "s": s, "how": "io"}),
            29 => { let how = *r.pick(&["w", "w", "all", "v", "v", "flush"]); let mut j = json!({"op": "write", "s": s, "how": how});
                    if how == "v" { let k = r.below(5); j["parts"] = J::Array((0..k).map(|_| { let l = r.below(9); let b = self.blob(r, l); jb(&b) }).collect()); j["b"] = json!([]); }
                    else { let b = if how == "flush" { vec![] } else { let l = match r.below(4) { 0 => 14, 1 => 15, 2 if self.long => *r.pick(&[255usize, 256, 257, 520]), _ => r.below(22) }; self.blob(r, l) }; j["b"] = jb(&b); } j }
            30 => json!({"op": "buf", "s": s}),
            31 => json!({"op": "ctb", "s": s, "m": self.pos(r, s0)}),
            32 => json!({"op": "cts", "s": s, "m": r.below(len + 2).min(200)}),
            33 => json!({"op": "chv", "s": s, "m": r.below(clen + 3)}),
            34 => if r.chance(1, 2) { json!({"op": "fill", "s": s, "how": "buf"}) } else { json!({"op": "getu", "s": s}) },
            _ => json!({"op": "peek", "s": s, "how": "f"}),
        }
    }
}
