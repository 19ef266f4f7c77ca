//! Pool of live values of every owning type of the crate; one public call per event.
use crate::mem;
use crate::util::*;
use crate::with_range;
use bytedata::{ByteData, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use serde_json::{json, Value as J};
use std::borrow::Cow;
use std::sync::{Arc, Mutex};

pub const K: usize = 6;
static DROPS: Mutex<Vec<u32>> = Mutex::new(Vec::new());

/// External owner with a heap buffer of its own.
pub struct Own { id: u32, data: Vec<u8> }
impl Own { pub fn new(id: u32, b: &[u8]) -> Self { Own { id, data: b.to_vec() } } }
impl Drop for Own { fn drop(&mut self) { let id = self.id; if id != 0 { mem::untracked(|| DROPS.lock().unwrap().push(id)); } } }
impl bytedata::external::ExternalBytes for Own {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Own| &x.data);
}
/// External owner that holds its bytes inline (moving it would move the bytes), over-aligned.
#[repr(align(64))]
pub struct Inl { id: u32, n: usize, data: [u8; 80] }
impl Drop for Inl { fn drop(&mut self) { let id = self.id; self.data = [0xEE; 80]; mem::untracked(|| DROPS.lock().unwrap().push(id)); } }
impl bytedata::external::ExternalBytes for Inl {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Inl| &x.data[..x.n]);
}
/// External owner without drop glue.
pub struct Plain { n: usize, data: [u8; 48] }
impl bytedata::external::ExternalBytes for Plain {
    const OPS: bytedata::external::ExternalOps<Self> = bytedata::external::ExternalOps::new(|x: &Plain| &x.data[..x.n]);
}

pub enum V {
    No,
    Bd(ByteData<'static>),
    Sd(StringData<'static>),
    Sb(SharedBytes),
    Bb(SharedBytesBuilder),
    Tb(SharedStrBuilder),
    Vc(Vec<u8>),
    Str(String),
    By(Bytes),
    Bm(BytesMut),
}
use V::*;

/// Storage lent to values: overwritten when the loan ends (`expire`), as a lender would.
struct Loan { id: u32, p: *mut u8, n: usize, live: bool }
/// Constructors whose result may go on looking at the bytes it was given.
const LENDING: &[&str] = &["borrowed", "from_slice", "cow_b", "from_cow", "from_cows_b", "from_str"];
pub struct Pool { v: Vec<V>, last: Vec<J>, prof: String, oid: u32, cnt: u8, loans: Vec<Loan>, lent: Vec<Vec<u32>>, hot: (usize, u8) }

fn free_of(b: &mut SharedBytesBuilder) -> usize { b.apply_unfilled(|s| (s.len(), 0)) }

impl Pool {
    pub fn new(prof: &str) -> Self {
        mem::reset();
        mem::take_events();
        DROPS.lock().unwrap().clear();
        Pool { v: (0..K).map(|_| No).collect(), last: (0..K).map(|i| json!({"i": i + 1, "t": "no"})).collect(), prof: prof.into(), oid: 0, cnt: 0, loans: vec![], lent: (0..K).map(|_| vec![]).collect(), hot: (0, 0) }
    }
    fn proj(&mut self, i: usize) -> J {
        let (t, b, n, e, cap, free): (&str, &[u8], usize, bool, usize, usize) = match &mut self.v[i] {
            No => return json!({"i": i + 1, "t": "no"}),
            Bd(x) => ("bd", x.as_slice(), x.len(), x.is_empty(), 0, 0),
            Sd(x) => ("sd", x.as_bytes(), x.len(), x.is_empty(), 0, 0),
            Sb(x) => ("sb", x.as_slice(), x.len(), x.is_empty(), 0, 0),
            Bb(x) => { let f = free_of(x); ("bb", x.as_slice(), x.len(), x.is_empty(), x.capacity(), f) }
            Tb(x) => ("tb", x.as_bytes(), x.len(), x.is_empty(), x.capacity(), 0),
            Vc(x) => ("vec", x.as_slice(), x.len(), x.is_empty(), 0, 0),
            Str(x) => ("str", x.as_bytes(), x.len(), x.is_empty(), 0, 0),
            By(x) => ("by", &x[..], x.len(), x.is_empty(), 0, 0),
            Bm(x) => ("bm", &x[..], x.len(), x.is_empty(), 0, 0),
        };
        let (p, l) = (b.as_ptr(), b.len());
        let blk = if l == 0 { 0 } else { mem::block_of(p) };
        // inline content is not in a block: an address inside the value itself
        let pa = if l == 0 { 0 } else { let a = p as usize; 1usize << a.trailing_zeros().min(12) };
        let mut j = json!({"i": i + 1, "t": t, "n": jn(n), "e": e, "blk": blk, "pa": pa});
        if l > 400 { j["rb"] = runs(b); } else { j["b"] = jb(b); }
        if t == "bb" || t == "tb" { j["cap"] = jn(cap); j["free"] = jn(free); }
        j
    }
}

/// A long content as runs of equal bytes: [[byte, count], ...]
fn runs(b: &[u8]) -> J {
    let mut v: Vec<(u8, usize)> = vec![];
    for x in b { match v.last_mut() { Some((y, k)) if *y == *x => *k += 1, _ => v.push((*x, 1)) } }
    J::Array(v.into_iter().map(|(x, k)| json!([x, k])).collect())
}
/// The content argument of an operation, given plainly or as runs.
fn content(op: &J) -> Vec<u8> {
    match op["rb"].as_array() {
        Some(a) => a.iter().flat_map(|x| std::iter::repeat_n(x[0].as_i64().unwrap_or(0) as u8, x[1].as_i64().unwrap_or(0) as usize)).collect(),
        None => by(op, "b"),
    }
}
fn own_concat(ps: &[Vec<u8>]) -> Vec<&'static [u8]> { ps.iter().map(|p| leak(p)).collect() }

/// Take the value out of a slot.
macro_rules! take { ($s:expr) => { std::mem::replace(&mut $s, No) }; }

impl Pool {
    fn build(&mut self, op: &J) -> Option<J> {
        // constructors, executed with tracking on (arguments that the library takes over are tracked too)
        let d = n(op, "d") - 1;
        let b = content(op);
        let how = st(op, "how");
        let t = st(op, "op");
        let oid = ni(op, "oid") as u32;
        let vis = leak(&b);
        let lid = ni(op, "ln") as u32;
        if lid != 0 { self.loans.push(Loan { id: lid, p: vis.as_ptr() as *mut u8, n: vis.len(), live: true }); }
        let ps: Vec<Vec<u8>> = parts(op, "parts");
        let cc = own_concat(&ps);
        let ss: Vec<&'static str> = cc.iter().map(|x| std::str::from_utf8(x).unwrap_or("")).collect();
        let vs = std::str::from_utf8(vis).unwrap_or("");
        let (al, capn) = (n(op, "al"), n(op, "cap"));
        let r = mem::tracked(|| catch(|| -> V {
            match (t, how) {
                ("c_bd", "empty") => Bd(ByteData::empty()),
                ("c_bd", "default") => Bd(ByteData::default()),
                ("c_bd", "static") => Bd(ByteData::from_static(vis)),
                ("c_bd", "borrowed") => Bd(ByteData::from_borrowed(vis)),
                ("c_bd", "from_slice") => Bd(ByteData::from(vis)),
                ("c_bd", "chunk") => Bd(ByteData::from_chunk_slice(vis)),
                ("c_bd", "byte") => Bd(ByteData::from_byte(vis[0])),
                ("c_bd", "chunk1") => Bd(ByteData::from_chunk(&[vis[0]])),
                ("c_bd", "chunk14") => { let mut a = [0u8; 14]; a.copy_from_slice(vis); Bd(ByteData::from_chunk(&a)) }
                ("c_bd", "owned") => Bd(ByteData::from_owned(vis.to_vec())),
                ("c_bd", "owned_cap") => { let mut v = Vec::with_capacity(vis.len() + 32); v.extend_from_slice(vis); Bd(ByteData::from_owned(v)) }
                ("c_bd", "from_vec") => Bd(ByteData::from(vis.to_vec())),
                ("c_bd", "from_string") => Bd(ByteData::from(vs.to_string())),
                ("c_bd", "concat") => Bd(ByteData::from_concat(&cc)),
                ("c_bd", "cow_b") => Bd(ByteData::from_cow(Cow::Borrowed(vis))),
                ("c_bd", "cow_o") => Bd(ByteData::from_cow(Cow::Owned(vis.to_vec()))),
                ("c_bd", "cow_sb") => Bd(ByteData::from_cow_static(Cow::Borrowed(vis))),
                ("c_bd", "cow_so") => Bd(ByteData::from_cow_static(Cow::Owned(vis.to_vec()))),
                ("c_bd", "from_cow") => Bd(ByteData::from(Cow::<[u8]>::Borrowed(vis))),
                ("c_bd", "from_cows") => Bd(ByteData::from(Cow::<str>::Owned(vs.to_string()))),
                ("c_bd", "iter") => Bd(vis.iter().copied().collect::<ByteData>()),
                ("c_bd", "iter_filter") => Bd(vis.iter().copied().filter(|_| true).collect::<ByteData>()),
                ("c_bd", "iter_tw") => { let l = vis.len(); let mut i = 0; Bd((0usize..usize::MAX).map(|k| *vis.get(k.min(l.max(1) - 1)).unwrap_or(&0)).take_while(|_| { i += 1; i <= l }).collect::<ByteData>()) }
                ("c_bd", "iter_none") => { struct It(&'static [u8], usize); impl Iterator for It { type Item = u8; fn next(&mut self) -> Option<u8> { let r = self.0.get(self.1).copied(); self.1 += 1; r } } Bd(It(vis, 0).collect::<ByteData>()) }
                ("c_bd", "iter_low") => { struct It(&'static [u8], usize); impl Iterator for It { type Item = u8; fn next(&mut self) -> Option<u8> { let r = self.0.get(self.1).copied(); self.1 += 1; r } fn size_hint(&self) -> (usize, Option<usize>) { ((self.0.len() - self.1.min(self.0.len())) / 2, None) } } Bd(It(vis, 0).collect::<ByteData>()) }
                ("c_bd", "chunk0") => Bd(ByteData::from_chunk::<0>(&[])),
                ("c_bd", "from_cow_o") => Bd(ByteData::from(Cow::<[u8]>::Owned(vis.to_vec()))),
                ("c_bd", "from_cows_b") => Bd(ByteData::from(Cow::<str>::Borrowed(vs))),
                ("c_bd", "interning_bytes") => Bd(ByteData::from(bytes::Bytes::from_static(vis))),
                ("c_ext", "vec") => Bd(ByteData::from_external(vis.to_vec())),
                ("c_ext", "box") => Bd(ByteData::from_external(vis.to_vec().into_boxed_slice())),
                ("c_ext", "arc") => Bd(ByteData::from_external(Arc::<[u8]>::from(vis))),
                ("c_ext", "string") => Bd(ByteData::from_external(vs.to_string())),
                ("c_ext", "boxstr") => Bd(ByteData::from_external(vs.to_string().into_boxed_str())),
                ("c_ext", "arcstr") => Bd(ByteData::from_external(Arc::<str>::from(vs))),
                ("c_ext", "own") => Bd(ByteData::from_external(Own { id: oid, data: vis.to_vec() })),
                ("c_ext", "inl") => { let mut a = [0u8; 80]; a[..vis.len()].copy_from_slice(vis); Bd(ByteData::from_external(Inl { id: oid, n: vis.len(), data: a })) }
                ("c_ext", "plain") => { let mut a = [0u8; 48]; a[..vis.len()].copy_from_slice(vis); Bd(ByteData::from_external(Plain { n: vis.len(), data: a })) }
                ("c_sd", "empty") => Sd(StringData::empty()),
                ("c_sd", "static") => Sd(StringData::from_static(vs)),
                ("c_sd", "borrowed") => Sd(StringData::from_borrowed(vs)),
                ("c_sd", "from_str") => Sd(StringData::from(vs)),
                ("c_sd", "owned") => Sd(StringData::from_owned(vs.to_string())),
                ("c_sd", "from_string") => Sd(StringData::from(vs.to_string())),
                ("c_sd", "concat") => Sd(StringData::from_concat(&ss)),
                ("c_sd", "cow_b") => Sd(StringData::from_cow(Cow::Borrowed(vs))),
                ("c_sd", "cow_o") => Sd(StringData::from_cow(Cow::Owned(vs.to_string()))),
                ("c_sd", "cow_sb") => Sd(StringData::from_cow_static(Cow::Borrowed(vs))),
                ("c_sd", "cow_so") => Sd(StringData::from_cow_static(Cow::Owned(vs.to_string()))),
                ("c_sd", "from_cow") => Sd(StringData::from(Cow::<str>::Borrowed(vs))),
                ("c_sd", "from_cow_o") => Sd(StringData::from(Cow::<str>::Owned(vs.to_string()))),
                ("c_sd", "default") => Sd(StringData::default()),
                ("c_sb", "default") => Sb(SharedBytes::default()),
                ("c_sb", "builder") => { let mut x = SharedBytes::builder(); x.extend_from_slice(vis); Sb(x.build()) }
                ("c_sb", "empty") => Sb(SharedBytes::empty()),
                ("c_sb", "slice") => Sb(SharedBytes::from_slice(vis)),
                ("c_sb", "from") => Sb(SharedBytes::from(vis)),
                ("c_sb", "aligned") => Sb(SharedBytes::from_slice_aligned(vis, al)),
                ("c_sb", "from_vec") => Sb(SharedBytes::from(vis.to_vec())),
                ("c_sb", "from_string") => Sb(SharedBytes::from(vs.to_string())),
                ("c_sb", "from_str") => Sb(vs.parse::<SharedBytes>().unwrap()),
                ("c_bb", "new") => Bb(SharedBytesBuilder::new()),
                ("c_bb", "builder") => Bb(SharedBytes::builder()),
                ("c_bb", "default") => Bb(SharedBytesBuilder::default()),
                ("c_bb", "align") => Bb(SharedBytesBuilder::with_alignment(al)),
                ("c_bb", "cap") => Bb(SharedBytesBuilder::with_capacity(capn)),
                ("c_bb", "capalign") => Bb(SharedBytesBuilder::with_aligned_capacity(capn, al)),
                ("c_tb", "new") => Tb(SharedStrBuilder::new()),
                ("c_tb", "default") => Tb(SharedStrBuilder::default()),
                ("c_tb", "cap") => Tb(SharedStrBuilder::with_capacity(capn)),
                ("c_tb", "from_str") => Tb(SharedStrBuilder::from(vs)),
                ("c_tb", "parse") => Tb(vs.parse::<SharedStrBuilder>().unwrap()),
                ("c_by", "copy") => By(Bytes::copy_from_slice(vis)),
                ("c_by", "vec") => By(Bytes::from(vis.to_vec())),
                ("c_by", "static") => By(Bytes::from_static(vis)),
                ("c_vec", _) => Vc(vis.to_vec()),
                ("c_str", _) => Str(vs.to_string()),
                _ => panic!("bad constructor"),
            }
        }));
        Some(match r {
            Ok(v) => { mem::tracked(|| self.v[d] = v); okn() }
            Err(()) => pan(),
        })
    }

    fn conv(&mut self, op: &J) -> J {
        let s = n(op, "s") - 1;
        let to = st(op, "to");
        let v = take!(self.v[s]);
        let r = mem::tracked(|| catch(|| -> Result<V, V> {
            Ok(match (v, to) {
                (Bd(x), "sb") => Sb(SharedBytes::from(x)),
                (Bd(x), "vec") => Vc(Vec::from(x)),
                (Bd(x), "by") => By(Bytes::from(x)),
                (Bd(x), "shared") => Bd(x.into_shared()),
                (Bd(x), "static") => Bd(x.statically_borrowed()),
                (Bd(x), "cow") => match Cow::<[u8]>::from(x) { Cow::Borrowed(b) => Bd(ByteData::from_borrowed(b)), Cow::Owned(v) => Vc(v) },
                (Bd(x), "sd") => match StringData::try_from(x) { Ok(y) => Sd(y), Err(y) => return Err(Bd(y)) },
                (Bd(x), "sd2") => match StringData::try_from_bytedata(x) { Ok(y) => Sd(y), Err(y) => return Err(Bd(y)) },
                (Sd(x), "bd") => Bd(x.into_bytedata()),
                (Sd(x), "bd2") => Bd(ByteData::from(x)),
                (Sd(x), "str") => Str(String::from(x)),
                (Sd(x), "vec") => Vc(Vec::from(x)),
                (Sd(x), "cow") => match Cow::<str>::from(x) { Cow::Borrowed(b) => Sd(StringData::from_borrowed(b)), Cow::Owned(v) => Str(v) },
                (Sd(x), "tb") => Tb(SharedStrBuilder::from(x)),
                (Sd(x), "shared") => Sd(x.into_shared()),
                (Sd(x), "static") => Sd(x.statically_borrowed()),
                (Sb(x), "bd") => Bd(ByteData::from_shared(x)),
                (Sb(x), "bd2") => Bd(ByteData::from(x)),
                (Sb(x), "bb") => Bb(SharedBytesBuilder::from(x)),
                (Sb(x), "by") => By(Bytes::from(x)),
                (Sb(x), "sd") => match StringData::try_from(x) { Ok(y) => Sd(y), Err(y) => return Err(Sb(y)) },
                (Sb(x), "sd2") => match StringData::try_from_shared(x) { Ok(y) => Sd(y), Err(y) => return Err(Sb(y)) },
                (Bb(x), "sb") => Sb(x.build()),
                (Bb(x), "sb2") => Sb(SharedBytes::from(x)),
                (Bb(x), "bd") => Bd(ByteData::from(x)),
                (Bb(x), "tb") => match SharedStrBuilder::try_from(x) { Ok(y) => Tb(y), Err(_) => return Err(No) },
                (Tb(x), "sb") => Sb(x.build()),
                (Tb(x), "sb2") => Sb(SharedBytes::from(x)),
                (Tb(x), "sd") => Sd(x.build_str()),
                (Tb(x), "sd2") => Sd(StringData::from(x)),
                (Tb(x), "bd") => Bd(ByteData::from(x)),
                (Tb(x), "bb") => Bb(x.into_shared_bytes_builder()),
                (Tb(x), "bb2") => Bb(SharedBytesBuilder::from(x)),
                (By(x), "bd") => Bd(ByteData::from(x)),
                (By(x), "sb") => Sb(SharedBytes::from(x)),
                (By(x), "vec") => Vc(Vec::from(x)),
                (By(x), "bm") => Bm(BytesMut::from(x)),
                (By(x), "trymut") => match x.try_into_mut() { Ok(m) => Bm(m), Err(x) => return Err(By(x)) },
                (By(x), "ext") => Bd(ByteData::from_external(x)),
                (Bm(x), "by") => By(x.freeze()),
                (Vc(x), "bd") => Bd(ByteData::from_owned(x)),
                (Vc(x), "sb") => Sb(SharedBytes::from(x)),
                (Str(x), "sd") => Sd(StringData::from_owned(x)),
                (Str(x), "bd") => Bd(ByteData::from(x)),
                (v, _) => return Err(v),
            })
        }));
        match r {
            Ok(Ok(v)) => { self.v[s] = v; okn() }
            Ok(Err(v)) => { self.v[s] = v; json!({"k": "err"}) }
            Err(()) => pan(),
        }
    }

    fn slice(&mut self, op: &J) -> J {
        let s = n(op, "s") - 1;
        let d = n(op, "d");
        let f = st(op, "fn");
        let g = rg(op, "rg");
        let (o, l) = (n(op, "off"), n(op, "len"));
        let consume = f.starts_with("into");
        let mut cur = if consume { take!(self.v[s]) } else { No };
        let slot = if consume { &mut cur } else { &mut self.v[s] };
        let r = mem::tracked(|| catch(|| -> Option<V> {
            match (slot, f) {
                (Bd(x), "sliced") => Some(Bd(with_range!(g, r => x.sliced(r)))),
                (Bd(x), "make") => { with_range!(g, r => { x.make_sliced(r); }); None }
                (x @ Bd(_), "into") => { let Bd(x) = take!(*x) else { return None }; Some(Bd(with_range!(g, r => x.into_sliced(r)))) }
                (x @ Bd(_), "into_shared") => { let Bd(x) = take!(*x) else { return None }; Some(Bd(with_range!(g, r => x.into_shared_range(r)))) }
                (Sd(x), "sliced") => Some(Sd(with_range!(g, r => x.sliced(r)))),
                (Sd(x), "make") => { with_range!(g, r => { x.make_sliced(r); }); None }
                (x @ Sd(_), "into") => { let Sd(x) = take!(*x) else { return None }; Some(Sd(with_range!(g, r => x.into_sliced(r)))) }
                (x @ Sd(_), "into_shared") => { let Sd(x) = take!(*x) else { return None }; Some(Sd(with_range!(g, r => x.into_shared_range(r)))) }
                (Sb(x), "sliced") => Some(Sb(with_range!(g, r => x.sliced_range(r)))),
                (Sb(x), "make") => { with_range!(g, r => { x.make_sliced_range(r); }); None }
                (x @ Sb(_), "into") => { let Sb(x) = take!(*x) else { return None }; Some(Sb(with_range!(g, r => x.into_sliced_range(r)))) }
                (Sb(x), "sliced_ol") => Some(Sb(x.sliced(o, l))),
                (Sb(x), "make_ol") => { x.make_sliced(o, l); None }
                (x @ Sb(_), "into_ol") => { let Sb(x) = take!(*x) else { return None }; Some(Sb(x.into_sliced(o, l))) }
                (By(x), "sliced") => Some(By(with_range!(g, r => x.slice(r)))),
                _ => None,
            }
        }));
        match r {
            Ok(Some(v)) => { let t = if consume { s } else { d - 1 }; mem::tracked(|| self.v[t] = v); okn() }
            Ok(None) => okn(),
            Err(()) => { mem::tracked(|| drop(cur)); pan() }
        }
    }

    fn other(&mut self, op: &J) -> J {
        let s = n(op, "s").max(1) - 1;
        let d = n(op, "d").max(1) - 1;
        let m = n(op, "m");
        let b = content(op);
        let vis = leak(&b);
        let vs = leak_str(&b);
        let ps: Vec<Vec<u8>> = parts(op, "parts");
        let o = st(op, "op");
        match o {
            "drop" => { let v = take!(self.v[s]); return match mem::tracked(|| catch(|| drop(v))) { Ok(()) => okn(), Err(()) => pan() }; }
            "clone" => {
                let v = &self.v[s];
                let r = mem::tracked(|| catch(|| match v {
                    Bd(x) => Bd(x.clone()), Sd(x) => Sd(x.clone()), Sb(x) => Sb(x.clone()), By(x) => By(x.clone()), Vc(x) => Vc(x.clone()), Str(x) => Str(x.clone()), _ => No,
                }));
                return match r { Ok(v) => { mem::tracked(|| self.v[d] = v); okn() } Err(()) => pan() };
            }
            "take_bytes" | "take_while" | "take_line" | "copy_to_bytes" | "trim" | "split_to" | "split_off" | "tosb" => {
                let v = &mut self.v[s];
                let r = mem::tracked(|| catch(|| match (v, o) {
                    (Bd(x), "take_bytes") => Bd(x.take_bytes(m)),
                    (Bd(x), "take_while") => Bd(x.take_while(|c| (c as usize) < m)),
                    (Sd(x), "take_while") => Sd(x.take_while(|c| (c as usize) < m)),
                    (Sd(x), "take_line") => Sd(x.take_line()),
                    (Sd(x), "trim") => Sd(match m { 0 => x.trim(), 1 => x.trim_start(), _ => x.trim_end() }),
                    (Bd(x), "copy_to_bytes") => By(x.copy_to_bytes(m)),
                    (Sb(x), "copy_to_bytes") => By(x.copy_to_bytes(m)),
                    (By(x), "split_to") => By(x.split_to(m)),
                    (By(x), "split_off") => By(x.split_off(m)),
                    _ => No,
                }));
                return match r { Ok(v) => { mem::tracked(|| self.v[d] = v); okn() } Err(()) => pan() };
            }
            "split_at" => {
                let v = take!(self.v[s]);
                let r = mem::tracked(|| catch(|| match v {
                    Bd(x) => { let (a, b) = x.split_at(m); (Bd(a), Bd(b)) }
                    Sd(x) => { let (a, b) = x.split_at(m); (Sd(a), Sd(b)) }
                    v => (v, No),
                }));
                return match r { Ok((a, b)) => { mem::tracked(|| { self.v[d] = a; self.v[s] = b; }); okn() } Err(()) => pan() };
            }
            "split_once" => {
                let v = take!(self.v[s]);
                let r = mem::tracked(|| catch(|| match v {
                    Bd(x) => match x.split_once_on(vis) { Ok((a, b)) => (true, Bd(a), Bd(b)), Err(x) => (false, Bd(x), No) },
                    Sd(x) => match x.split_once_on(vs) { Ok((a, b)) => (true, Sd(a), Sd(b)), Err(x) => (false, Sd(x), No) },
                    v => (false, v, No),
                }));
                return match r {
                    Ok((true, a, b)) => { mem::tracked(|| { self.v[d] = a; self.v[s] = b; }); okn() }
                    Ok((false, a, _)) => { self.v[s] = a; none() }
                    Err(()) => pan(),
                };
            }
            _ => {}
        }
        let v = &mut self.v[s];
        let r = mem::tracked(|| catch(|| -> J {
            match (v, o) {
                (Bd(x), "idx") => { let y = x[m]; mem::untracked(|| ok(json!(y))) }
                (Sb(x), "idx") => { let y = x[m]; mem::untracked(|| ok(json!(y))) }
                (Sb(x), "ixr") => { let (a, l) = (n(op, "off"), n(op, "len")); let y: &[u8] = match st(op, "fn") { "r" => &x[a..l], "from" => &x[a..], "to" => &x[..l], _ => &x[..] }; mem::untracked(|| ok(jb(y))) }
                (Bd(x), "next") => { let y = x.next(); mem::untracked(|| match y { Some(y) => ok(json!(y)), None => none() }) }
                (Sd(x), "next") => { let y = Iterator::next(x); mem::untracked(|| match y { Some(y) => ok(json!(y as u32)), None => none() }) }
                (Sb(x), "uniq") => { let y = x.is_unique(); mem::untracked(|| ok(json!(y))) }
                (By(x), "uniq") => { let y = x.is_unique(); mem::untracked(|| ok(json!(y))) }
                (Bd(x), "borrow") => { let y = x.as_borrowed(); mem::untracked(|| match y { Some(y) => ok(jb(y)), None => none() }) }
                (Sd(x), "borrow") => { let y = x.as_borrowed(); mem::untracked(|| match y { Some(y) => ok(jb(y.as_bytes())), None => none() }) }
                (Bd(x), "advance") => { x.advance(m); mem::untracked(okn) }
                (Sb(x), "advance") => { x.advance(m); mem::untracked(okn) }
                (By(x), "advance") => { x.advance(m); mem::untracked(okn) }
                (By(x), "truncate") => { x.truncate(m); mem::untracked(okn) }
                (Bd(x), "buf") => { let y = (x.remaining(), x.chunk().len(), x.has_remaining()); mem::untracked(|| ok(json!([jn(y.0), jn(y.1), y.2]))) }
                (Sb(x), "buf") => { let y = (x.remaining(), x.chunk().len(), x.has_remaining()); mem::untracked(|| ok(json!([jn(y.0), jn(y.1), y.2]))) }
                (Bd(x), "get_u8") => { let y = x.get_u8(); mem::untracked(|| ok(json!(y))) }
                (Sb(x), "get_u8") => { let y = x.get_u8(); mem::untracked(|| ok(json!(y))) }
                (Bd(x), "copy_to_slice") => { let mut v = [0u8; 64]; x.copy_to_slice(&mut v[..m.min(64)]); mem::untracked(|| ok(jb(&v[..m]))) }
                (Sb(x), "copy_to_slice") => { let mut v = [0u8; 64]; x.copy_to_slice(&mut v[..m.min(64)]); mem::untracked(|| ok(jb(&v[..m]))) }
                (Bd(x), "views") => { use std::borrow::Borrow; let v: [&[u8]; 5] = [x.as_slice(), x.as_ref(), x, Borrow::<[u8]>::borrow(x), x.chunk()]; views(&v) }
                (Sd(x), "views") => { use std::borrow::Borrow; let v: [&[u8]; 8] = [x.as_bytes(), x.as_str().as_bytes(), AsRef::<[u8]>::as_ref(x), AsRef::<str>::as_ref(x).as_bytes(), str::as_bytes(x), Borrow::<str>::borrow(x).as_bytes(), x.as_bytedata().as_slice(), AsRef::<ByteData<'static>>::as_ref(x).as_slice()]; views(&v) }
                (Sb(x), "views") => { let v: [&[u8]; 4] = [x.as_slice(), x.as_ref(), x, x.chunk()]; views(&v) }
                (Bb(x), "views") => { let mut w = { let v: [&[u8]; 3] = [x.as_slice(), x.as_ref(), x]; views_raw(&v) };
                    let a: J = mem::untracked(|| jb(x.as_slice_mut())); let c: J = mem::untracked(|| jb(AsMut::<[u8]>::as_mut(x))); let d: J = mem::untracked(|| { let y: &mut [u8] = x; jb(y) });
                    mem::untracked(|| { w.as_array_mut().unwrap().extend([a, c, d]); ok(w) }) }
                (Tb(x), "views") => { use std::borrow::Borrow; let v: [&[u8]; 3] = [x.as_bytes(), x.as_str().as_bytes(), Borrow::<str>::borrow(x).as_bytes()]; views(&v) }
                // byte builder
                (Bb(x), "push") => { match st(op, "how") {
                    "slice" => x.extend_from_slice(vis),
                    "iter" => x.extend(vis.iter().copied()),
                    "iterref" => x.extend(vis.iter()),
                    "slices" => x.extend(ps.iter().map(|p| p.as_slice())),
                    "strs" => x.extend([vs]),
                    "fmt" => { use std::fmt::Write; x.write_str(vs).unwrap() }
                    "fmtc" => { use std::fmt::Write; for c in vs.chars() { x.write_char(c).unwrap() } }
                    "io" => { use std::io::Write; x.write_all(vis).unwrap() }
                    "iov" => { use std::io::Write; let sl: Vec<std::io::IoSlice> = mem::untracked(|| ps.iter().map(|p| std::io::IoSlice::new(p)).collect()); let k = x.write_vectored(&sl).unwrap(); mem::untracked(|| drop(sl)); assert_eq!(k, vis.len()) }
                    "put_slice" => x.put_slice(vis),
                    "put" => x.put(vis),
                    "put_bd" => x.put(ByteData::from_borrowed(vis)),
                    "put_chain" => { let k = vis.len() / 2; x.put(vis[..k].chain(&vis[k..])) }
                    "put_bq" => { let mut q = bytedata::ByteQueue::new(); for c in vis.chunks(3) { q.push_back(c) } x.put(q) }
                    "put_u8" => x.put_u8(vis[0]),
                    "put_u32" => x.put_u32(u32::from_be_bytes([vis[0], vis[1], vis[2], vis[3]])),
                    "put_bytes" => x.put_bytes(vis[0], vis.len()),
                    "put_bytes0" => x.put_bytes(7, 0),
                    "chunk" => { let c = x.chunk_mut(); let l = c.len(); if l == 0 { return mem::untracked(none) } let k = l.min(vis.len()); c[..k].copy_from_slice(&vis[..k]); unsafe { x.advance_mut(k) }; return mem::untracked(|| ok(json!(k))) }
                    "unfilled" => { let k = x.apply_unfilled(|u| { let k = u.len().min(vis.len()); for i in 0..k { u[i] = std::mem::MaybeUninit::new(vis[i]); } (k, k) }); return mem::untracked(|| ok(json!(k))) }
                    "async" => {
                        let k = block_on(x.apply_unfilled_async(|mut u| async move { let k = u.len().min(vis.len()); for i in 0..k { u[i] = std::mem::MaybeUninit::new(vis[i]); } (k, k) }));
                        return mem::untracked(|| ok(json!(k)));
                    }
                    "overfill" => { x.apply_unfilled(|u| ((), u.len() + 1)); }
                    "bbuf" => {
                        let k = x.apply_borrowed_buf(|c| { let mut c = c.unfilled(); let k = c.capacity().min(vis.len()); c.append(&vis[..k]); k });
                        return mem::untracked(|| ok(json!(k)));
                    }
                    _ => panic!("bad push"),
                }; mem::untracked(okn) }
                (Bb(x), "reserve") => { x.reserve(m); mem::untracked(okn) }
                (Bb(x), "trunc") => { x.truncate(m); mem::untracked(okn) }
                (Bb(x), "clear") => { x.clear(); mem::untracked(okn) }
                (Bb(x), "setb") => { let k = m; x.as_slice_mut()[k] = vis[0]; mem::untracked(okn) }
                (Bb(x), "remmut") => { let y = x.remaining_mut(); mem::untracked(|| ok(jn(y))) }
                // text builder
                (Tb(x), "push") => { match st(op, "how") {
                    "str" => x.push_str(vs),
                    "char" => for c in vs.chars() { x.push(c) },
                    "fmt" => { use std::fmt::Write; x.write_str(vs).unwrap() }
                    "fmtc" => { use std::fmt::Write; for c in vs.chars() { x.write_char(c).unwrap() } }
                    _ => panic!("bad push"),
                }; mem::untracked(okn) }
                (Tb(x), "reserve") => { x.reserve(m); mem::untracked(okn) }
                (Tb(x), "trunc") => { x.truncate(m); mem::untracked(okn) }
                (Tb(x), "clear") => { x.clear(); mem::untracked(okn) }
                _ => mem::untracked(|| json!({"k": "badop"})),
            }
        }));
        r.unwrap_or_else(|()| pan())
    }
}

fn views_raw(v: &[&[u8]]) -> J { mem::untracked(|| J::Array(v.iter().map(|b| jb(b)).collect())) }
fn views(v: &[&[u8]]) -> J { mem::untracked(|| ok(views_raw(v))) }
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(&w);
    loop { if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; } }
}

impl crate::Suite for Pool {
    fn exec(&mut self, op: &J) -> J {
        let o = st(op, "op");
        let r = if o == "expire" { self.expire(op) } else if o.starts_with("c_") { self.build(op).unwrap() }
            else if o == "conv" { self.conv(op) }
            else if o == "slc" { self.slice(op) }
            else { self.other(op) };
        self.track_loans(op);
        self.event(r)
    }
    fn finish(&mut self) -> Option<J> {
        for i in 0..K { let v = take!(self.v[i]); let _ = mem::tracked(|| catch(|| drop(v))); }
        let e = self.event(okn());
        let mut e = e;
        e["op"] = json!("finish");
        mem::reset();
        Some(e)
    }
    fn gen(&mut self, r: &mut Rng, step: usize) -> Option<J> {
        let j = self.gen_op(r, step);
        // conversions and slices of one value are made to follow each other more often than chance has it
        let n = |k: &str| j[k].as_u64().unwrap_or(0) as usize;
        self.hot = match st(&j, "op") { "slc" if st(&j, "fn").starts_with("sliced") => (n("d"), 1), "slc" => (n("s"), 1), "conv" => (n("s"), 2), "c_ext" => (n("d"), 2), "c_by" => (n("d"), 3), _ => (0, 0) };
        Some(j)
    }
}

impl Pool {
    /// The lender reuses its storage.
    fn expire(&mut self, op: &J) -> J {
        let id = ni(op, "ln") as u32;
        for l in self.loans.iter_mut().filter(|l| l.id == id) { l.live = false; for k in 0..l.n { unsafe { l.p.add(k).write_volatile(b'~') } } }
        okn()
    }
    /// Which loans a value may still need, by its type and the call that made it (so that only finished loans are ended).
    fn track_loans(&mut self, op: &J) {
        let o = st(op, "op");
        if o == "expire" { return; }
        let ext = |x: &mut Pool, k: usize, l: &[u32]| { x.lent[k] = if matches!(x.v[k], Bd(_) | Sd(_)) { l.to_vec() } else { vec![] } };
        let (s, d) = (n(op, "s"), n(op, "d"));
        let mut l = if s > 0 { self.lent[s - 1].clone() } else { vec![] };
        if (o == "conv" && st(op, "to") == "shared") || (o == "slc" && st(op, "fn") == "into_shared") { l.clear(); }
        if o.starts_with("c_") && LENDING.contains(&st(op, "how")) { if let Some(x) = op["ln"].as_u64() { l.push(x as u32); } }
        if s > 0 { ext(self, s - 1, &l); }
        if d > 0 { ext(self, d - 1, &l); }
    }
    fn event(&mut self, r: J) -> J {
        let evs = mem::take_events();
        let mut ch = vec![];
        for i in 0..K {
            let p = self.proj(i);
            if p != self.last[i] { self.last[i] = p.clone(); ch.push(p); }
        }
        let mut e = json!({"r": r, "ch": ch});
        let al: Vec<J> = evs.iter().filter(|e| e.kind == 1).map(|e| json!([e.id, enc(e.size), e.align])).collect();
        let fr: Vec<J> = evs.iter().filter(|e| e.kind == 2).map(|e| json!([e.id, enc(e.size), e.align])).collect();
        let bad: Vec<J> = evs.iter().filter(|e| e.kind >= 3).map(|e| json!([e.id, e.kind])).collect();
        e["ma"] = J::Array(al); e["mf"] = J::Array(fr); e["mb"] = J::Array(bad);
        let dr: Vec<J> = DROPS.lock().unwrap().drain(..).map(J::from).collect();
        e["dr"] = J::Array(dr);
        e
    }

    fn blob(&mut self, r: &mut Rng, n: usize) -> Vec<u8> {
        // distinct running bytes, so that every position is recognisable
        (0..n).map(|_| { self.cnt = self.cnt.wrapping_add(1); if r.chance(1, 40) { 0 } else { self.cnt } }).collect()
    }
    fn t(&self, i: usize) -> &'static str {
        match &self.v[i] { No => "no", Bd(_) => "bd", Sd(_) => "sd", Sb(_) => "sb", Bb(_) => "bb", Tb(_) => "tb", Vc(_) => "vec", Str(_) => "str", By(_) => "by", Bm(_) => "bm" }
    }
    fn ln(&self, i: usize) -> usize { self.last[i]["n"].as_u64().unwrap_or(0) as usize }

    fn gen_new(&mut self, r: &mut Rng, d: usize) -> J {
        let w: &[&str] = match self.prof.as_str() {
            "slice" => &["c_bd", "c_bd", "c_sd", "c_sb", "c_sb", "c_ext"],
            "build" => &["c_bb", "c_bb", "c_bb", "c_tb", "c_sb"],
            "ext" => &["c_ext", "c_ext", "c_ext", "c_bd", "c_sb", "c_vec"],
            "bytes" => &["c_bd", "c_sb", "c_by", "c_ext", "c_sb", "c_bb"],
            "text" => &["c_sd", "c_sd", "c_tb", "c_bd", "c_sb", "c_str"],
            _ => &["c_bd", "c_bd", "c_bd", "c_sd", "c_sb", "c_sb", "c_bb", "c_tb", "c_ext", "c_ext", "c_by", "c_vec", "c_str"],
        };
        let op = *r.pick(w);
        let mut j = json!({"op": op, "d": d});
        let mut len = gen_len(r);
        match op {
            "c_bd" => {
                let how = *r.pick(&["empty", "default", "static", "borrowed", "from_slice", "chunk", "byte", "chunk1", "chunk14", "owned", "owned_cap", "from_vec", "from_string", "concat", "cow_b", "cow_o", "cow_sb", "cow_so", "from_cow", "from_cows", "iter", "iter_filter", "iter_tw", "iter_none", "iter_low", "chunk0", "from_cow_o", "from_cows_b"]);
                match how { "empty" | "default" | "chunk0" => len = 0, "byte" | "chunk1" => len = 1, "chunk14" => len = 14, "chunk" => if len > 15 { len = r.range(13, 15) }, _ => {} }
                j["how"] = json!(how);
                if how == "concat" {
                    let k = r.below(5); let mut all = vec![]; let mut ps = vec![];
                    for _ in 0..k { let l = r.below(12); let p = self.blob(r, l); all.extend_from_slice(&p); ps.push(jb(&p)); }
                    j["parts"] = J::Array(ps); j["b"] = jb(&all);
                } else if how == "from_string" || how.starts_with("from_cows") || (self.prof == "text" && r.chance(1, 2) && len != 1 && len != 14 && how != "chunk") {
                    let b = gen_text(r, 10); let b = if len == 0 { vec![] } else { b }; j["b"] = jb(&b);
                } else { let b = self.blob(r, len); j["b"] = jb(&b); }
            }
            "c_ext" => {
                let how = *r.pick(&["vec", "box", "arc", "string", "boxstr", "arcstr", "own", "own", "own", "inl", "inl", "plain"]);
                j["how"] = json!(how);
                let b = if how.ends_with("str") || how == "string" { let mut b = gen_text(r, 16); if r.chance(1, 2) { b.extend_from_slice(b"abcdefghijklmnopq"); } b } else { if r.chance(1, 2) { len += 12; } self.blob(r, len.min(48)) };
                j["b"] = jb(&b);
                if how == "own" || how == "inl" { self.oid += 1; j["oid"] = json!(self.oid); }
            }
            "c_sd" | "c_str" => {
                let how = *r.pick(&["empty", "static", "borrowed", "from_str", "owned", "from_string", "concat", "cow_b", "cow_o", "cow_sb", "cow_so", "from_cow", "from_cow_o", "default"]);
                j["how"] = json!(how);
                if how == "concat" && op == "c_sd" {
                    let k = r.below(5); let mut all = vec![]; let mut ps = vec![];
                    for _ in 0..k { let p = gen_text(r, 5); all.extend_from_slice(&p); ps.push(jb(&p)); }
                    j["parts"] = J::Array(ps); j["b"] = jb(&all);
                } else { let b = if (how == "empty" || how == "default") && op == "c_sd" { vec![] } else { gen_text(r, 12) }; j["b"] = jb(&b); }
            }
            "c_sb" => {
                let how = *r.pick(&["empty", "default", "builder", "slice", "from", "aligned", "aligned", "from_vec", "from_string", "from_str"]);
                j["how"] = json!(how);
                let b = match how { "empty" | "default" => vec![], "from_string" | "from_str" => gen_text(r, 12), _ if self.prof == "text" => gen_text(r, 10), _ => self.blob(r, len) };
                if how == "aligned" { j["al"] = json!(if b.is_empty() { 8 } else { *r.pick(&[1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 12, 48]) }); }
                j["b"] = jb(&b);
            }
            "c_bb" => {
                let how = *r.pick(&["new", "builder", "default", "align", "cap", "capalign", "capalign"]);
                j["how"] = json!(how); j["b"] = json!([]);
                if how == "align" || how == "capalign" { j["al"] = json!(*r.pick(&[1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 64, 256, 512, 1024, 12, 3, 48])); }
                if how == "cap" || how == "capalign" { j["cap"] = match r.below(16) { 0 => json!(2_000_000_000), 1 => json!(1_500_000_000 - r.below(3) as i64), 2 => json!(1_500_000_007), _ => json!(*r.pick(&[0, 1, 2, 5, 14, 16, 33, 100, 4096])) }; }
            }
            "c_tb" => {
                let how = *r.pick(&["new", "default", "cap", "from_str", "parse"]);
                j["how"] = json!(how);
                if how == "cap" { j["cap"] = json!(*r.pick(&[0, 1, 5, 16, 40])); }
                j["b"] = if how == "from_str" || how == "parse" { jb(&gen_text(r, 10)) } else { json!([]) };
            }
            "c_by" => { j["how"] = json!(*r.pick(&["copy", "vec", "static"])); let b = self.blob(r, len); j["b"] = jb(&b); }
            _ => { let b = self.blob(r, len); j["b"] = jb(&b); }
        }
        // some contents are only lent: not where the call asks for bytes that live for ever
        if !matches!(st(&j, "how"), "static" | "cow_sb" | "concat") && r.chance(1, 3) && !arr(&j["b"]).is_empty() { j["ln"] = json!(self.loans.len() + 1); }
        j
    }

    /// A long content given as runs; lengths around the growth steps of the builders.
    fn big_runs(&mut self, r: &mut Rng, long: bool) -> J {
        let total = if !long { r.range(1, 40) } else { match r.below(8) { 0 => 32768 - r.below(40), 1 => 32768 + r.below(40), 2 => r.range(40000, 66000), 3 => 65536 - r.below(24), 4 => 65536 + r.below(24), 5 => r.range(15000, 33000), 6 => r.range(4000, 17000), _ => r.range(500, 3000) } };
        let k = r.range(1, 4).min(total); let mut left = total; let mut v = vec![];
        for i in 0..k { self.cnt = self.cnt.wrapping_add(1); let l = if i + 1 == k { left } else { 1 + r.below(left - (k - i - 1)) }; v.push(json!([self.cnt, l])); left -= l; }
        J::Array(v)
    }
    fn gen_big(&mut self, r: &mut Rng) -> J {
        let free: Vec<usize> = (0..K).filter(|i| self.t(*i) == "no").collect();
        let used: Vec<usize> = (0..K).filter(|i| self.t(*i) != "no").collect();
        if used.is_empty() || (free.len() > 2 && r.chance(1, 4)) {
            let d = free[r.below(free.len())] + 1;
            return match r.below(6) {
                0 | 1 | 2 => { let how = *r.pick(&["new", "align", "cap", "capalign"]);
                    let mut j = json!({"op": "c_bb", "how": how, "b": [], "d": d});
                    if how == "align" || how == "capalign" { j["al"] = json!(*r.pick(&[1, 8, 64, 512])); }
                    if how == "cap" || how == "capalign" { j["cap"] = json!(*r.pick(&[1, 100, 32752, 32760, 32768, 40000, 65536, 100_000])); }
                    j }
                3 => json!({"op": "c_bd", "how": *r.pick(&["owned", "owned_cap", "from_vec", "static", "from_cow_o", "iter_none", "iter"]), "rb": self.big_runs(r, true), "d": d}),
                4 => { self.oid += 1; let mut j = json!({"op": "c_ext", "how": *r.pick(&["own", "vec", "box"]), "rb": self.big_runs(r, true), "d": d}); if j["how"] == "own" { j["oid"] = json!(self.oid); } j }
                _ => json!({"op": "c_sb", "how": *r.pick(&["slice", "from_vec", "builder"]), "rb": self.big_runs(r, true), "d": d}),
            };
        }
        let s0 = *r.pick(&used);
        let (s, t, len) = (s0 + 1, self.t(s0), self.ln(s0));
        if free.is_empty() || r.chance(1, 8) || len > 250_000 { return json!({"op": "drop", "s": s}); }
        let d = *r.pick(&free) + 1;
        match t {
            "bb" => match r.below(12) {
                0 => json!({"op": "conv", "s": s, "to": *r.pick(&["sb", "bd"])}),
                1 | 2 => json!({"op": "reserve", "s": s, "m": match r.below(6) { 0 => 32768, 1 => 1, 2 => (65536 - len.min(65536)) as i64, 3 => (32752 - len.min(32752)) as i64, 4 => r.below(70000) as i64, _ => 100_000 }}),
                3 => json!({"op": "trunc", "s": s, "m": gen_num(r, len)}),
                4 => json!({"op": "clear", "s": s}),
                5 | 6 => json!({"op": "push", "s": s, "how": *r.pick(&["chunk", "unfilled", "put_u8", "async", "bbuf"]), "b": [9]}),
                7 => { self.cnt = self.cnt.wrapping_add(1); json!({"op": "push", "s": s, "how": "put_bytes", "rb": [[self.cnt, *r.pick(&[63usize, 64, 65, 300, 4095, 4096, 4097, 33000])]]}) }
                _ => { let long = r.chance(3, 4); json!({"op": "push", "s": s, "how": *r.pick(&["slice", "slice", "put_chain", "iter", "iterref", "io", "put_slice", "put", "put_bd", "chunk", "unfilled"]), "rb": self.big_runs(r, long)}) }
            },
            "vec" | "bm" => json!({"op": "conv", "s": s, "to": if t == "vec" { "bd" } else { "by" }}),
            _ => match r.below(9) {
                0 => json!({"op": "clone", "s": s, "d": d}),
                1 => json!({"op": "conv", "s": s, "to": match t { "bd" => *r.pick(&["sb", "vec", "by", "shared"]), "sb" => *r.pick(&["bd", "bb", "by"]), _ => *r.pick(&["bd", "sb", "ext", "vec", "bm"]) }}),
                2 | 3 => { let mut j = json!({"op": "slc", "fn": if t == "by" { "sliced" } else { *r.pick(&["sliced", "make", "into"]) }, "s": s, "rg": gen_rg(r, len)}); if j["fn"] == "sliced" { j["d"] = json!(d); } j }
                4 => json!({"op": if t == "by" { "split_to" } else if t == "bd" { "take_bytes" } else { "copy_to_bytes" }, "s": s, "d": d, "m": r.below(len + 1)}),
                5 => json!({"op": "advance", "s": s, "m": r.below(len + 1)}),
                6 => if t == "bd" { json!({"op": "idx", "s": s, "m": gen_num(r, len)}) } else { json!({"op": "uniq", "s": s}) },
                7 => if t == "by" { json!({"op": "uniq", "s": s}) } else { json!({"op": "buf", "s": s}) },
                _ => json!({"op": "drop", "s": s}),
            },
        }
    }

    fn gen_op(&mut self, r: &mut Rng, step: usize) -> J {
        if self.prof == "big" { return self.gen_big(r); }
        if r.chance(1, 10) { if let Some(l) = self.loans.iter().find(|l| l.live && !self.lent.iter().any(|s| s.contains(&l.id))) { return json!({"op": "expire", "ln": l.id}); } }
        let free: Vec<usize> = (0..K).filter(|i| self.t(*i) == "no").collect();
        let used: Vec<usize> = (0..K).filter(|i| self.t(*i) != "no").collect();
        if used.is_empty() || (!free.is_empty() && r.chance(if step < 3 { 2 } else { 1 }, 5)) { let d = free[r.below(free.len())] + 1; return self.gen_new(r, d); }
        let hot = if self.hot.0 != 0 && self.t(self.hot.0 - 1) != "no" && (r.chance(1, 3) || self.prof == "bytes" && r.chance(1, 2)) { self.hot } else { (0, 0) };
        let s0 = if hot.0 != 0 { hot.0 - 1 } else { *r.pick(&used) };
        let (s, t, len) = (s0 + 1, self.t(s0), self.ln(s0));
        if free.is_empty() || r.chance(1, 9) { return json!({"op": "drop", "s": s}); }
        if matches!(t, "bd" | "sd" | "sb" | "bb" | "tb") && len <= 400 && r.chance(1, 30) { return json!({"op": "views", "s": s}); }
        let d = *r.pick(&free) + 1;
        let text = t == "sd" || t == "tb" || t == "str";
        let chlen = |j: &J| j.as_array().map_or(0, |a| a.len());
        let _ = chlen;
        let bd: &[u8] = &[0, 0, 0, 1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 7];
        let sd: &[u8] = &[0, 0, 1, 1, 2, 2, 2, 4, 5, 6, 8, 9];
        let sb: &[u8] = &[0, 0, 1, 1, 2, 2, 2, 2, 6, 7, 10, 11];
        let kind = match t { "bd" => *r.pick(bd), "sd" => *r.pick(sd), "sb" => *r.pick(sb), "bb" | "tb" => *r.pick(&[1u8, 12, 12, 12, 12, 12, 13, 14, 15]), "by" => *r.pick(&[0u8, 0, 1, 1, 2, 7, 10, 16, 17]), "bm" => 1, _ => *r.pick(&[0u8, 1, 1]) };
        let kind = if hot.0 != 0 && (hot.1 == 1 || len > 14) && matches!(t, "bd" | "sd" | "sb" | "by") { if hot.1 == 3 { 1 } else { hot.1 } } else { kind };
        match kind {
            0 => json!({"op": "clone", "s": s, "d": d}),
            1 => {
                let held = !self.lent[s0].is_empty();
                let to = match t {
                    "by" if hot.1 == 3 && r.chance(1, 2) => "ext",
                    "bd" if hot.1 == 1 && self.prof == "bytes" && r.chance(1, 2) => "by",
                    "bd" | "sd" if held && r.chance(1, 2) => "shared",
                    "bd" if held => *r.pick(&["sb", "vec", "by", "cow", "sd"]),
                    "sd" if held => *r.pick(&["bd", "bd2", "str", "vec", "cow", "tb"]),
                    "bd" => *r.pick(&["sb", "vec", "by", "shared", "static", "cow", "sd", "sd2"]),
                    "sd" => *r.pick(&["bd", "bd2", "str", "vec", "cow", "tb", "shared", "static"]),
                    "sb" => *r.pick(&["bd", "bd2", "bb", "bb", "by", "by", "sd", "sd2"]),
                    "bb" => *r.pick(&["sb", "sb2", "bd", "tb"]),
                    "tb" => *r.pick(&["sb", "sb2", "sd", "sd2", "bd", "bb", "bb2"]),
                    "by" => *r.pick(&["bd", "sb", "vec", "bm", "trymut", "ext"]),
                    "bm" => "by",
                    "vec" => *r.pick(&["bd", "sb"]),
                    _ => *r.pick(&["sd", "bd"]),
                };
                json!({"op": "conv", "s": s, "to": to})
            }
            2 => {
                let f = if t == "sb" { *r.pick(&["sliced", "make", "into", "sliced_ol", "make_ol", "into_ol"]) } else if t == "by" { "sliced" } else { *r.pick(&["sliced", "make", "into", "into_shared"]) };
                let mut j = json!({"op": "slc", "fn": f, "s": s});
                if f.starts_with("sliced") { j["d"] = json!(d); }
                if f.ends_with("_ol") {
                    if r.chance(2, 3) { let a = r.below(len + 1); j["off"] = json!(a); j["len"] = json!(r.below(len - a + 1)); }
                    else { j["off"] = json!(gen_num(r, len)); j["len"] = json!(gen_num(r, len)); }
                } else {
                    j["rg"] = gen_rg(r, len);
                }
                j
            }
            3 => json!({"op": "take_bytes", "s": s, "d": d, "m": gen_num(r, len)}),
            4 => json!({"op": "take_while", "s": s, "d": d, "m": if text { *r.pick(&[0usize, 10, 98, 99, 200, 9000, 2000000]) } else { r.below(256) }}),
            5 => json!({"op": "split_at", "s": s, "d": d, "m": gen_num(r, len)}),
            6 => match r.below(4) {
                0 => if t == "sd" { json!({"op": "borrow", "s": s}) } else { json!({"op": "idx", "s": s, "m": gen_num(r, len)}) },
                1 => if t == "sb" { json!({"op": "ixr", "s": s, "fn": *r.pick(&["r", "from", "to", "full"]), "off": gen_num(r, len), "len": gen_num(r, len)}) } else { json!({"op": "borrow", "s": s}) },
                2 => if t == "sb" { json!({"op": "uniq", "s": s}) } else { json!({"op": "next", "s": s}) },
                _ => if t == "sb" { json!({"op": "uniq", "s": s}) } else { json!({"op": "split_once", "s": s, "d": d, "b": self.needle(r, s0, text)}) },
            },
            7 => match r.below(5) {
                0 => json!({"op": "advance", "s": s, "m": gen_num(r, len)}),
                1 => if t == "by" { json!({"op": "split_to", "s": s, "d": d, "m": r.below(len + 1)}) } else { json!({"op": "copy_to_bytes", "s": s, "d": d, "m": gen_num(r, len)}) },
                2 => if t == "by" { json!({"op": "uniq", "s": s}) } else { json!({"op": "buf", "s": s}) },
                3 => if t == "by" { json!({"op": "truncate", "s": s, "m": r.below(len + 2)}) } else { json!({"op": "get_u8", "s": s}) },
                _ => if t == "by" { json!({"op": "split_off", "s": s, "d": d, "m": r.below(len + 1)}) } else { json!({"op": "copy_to_slice", "s": s, "m": r.below(len.min(62) + 2)}) },
            },
            8 => json!({"op": "take_line", "s": s, "d": d}),
            9 => json!({"op": "trim", "s": s, "d": d, "m": r.below(3)}),
            10 => json!({"op": "uniq", "s": s}),
            11 => json!({"op": "conv", "s": s, "to": "bb"}),
            12 => {
                if t == "tb" { json!({"op": "push", "s": s, "how": *r.pick(&["str", "char", "fmt", "fmtc"]), "b": jb(&gen_text(r, 8))}) }
                else {
                    let how = *r.pick(&["slice", "slice", "iter", "iterref", "slices", "strs", "fmt", "fmtc", "io", "iov", "put_slice", "put", "put_bd", "put_chain", "put_bq", "put_u8", "put_u32", "put_bytes", "put_bytes0", "chunk", "chunk", "unfilled", "unfilled", "async", "overfill", "bbuf", "bbuf"]);
                    let mut j = json!({"op": "push", "s": s, "how": how});
                    let l = r.range(0, 24);
                    let b = match how { "strs" | "fmt" | "fmtc" => gen_text(r, 10), "put_u8" => self.blob(r, 1), "put_u32" => self.blob(r, 4), "put_bytes" => vec![9; l + 1], "put_bytes0" | "overfill" => vec![], _ => self.blob(r, l) };
                    if how == "slices" || how == "iov" {
                        let k = r.below(4); let mut all = vec![]; let mut ps = vec![];
                        for _ in 0..k { let l = r.below(9); let p = self.blob(r, l); all.extend_from_slice(&p); ps.push(jb(&p)); }
                        j["parts"] = J::Array(ps); j["b"] = jb(&all);
                    } else { j["b"] = jb(&b); }
                    j
                }
            }
            13 => json!({"op": "reserve", "s": s, "m": match r.below(12) { 0 => 0, 1 => 40_000, 2 => 70_000, 3 => 2_000_000_000, 4 => 1_500_000_100i64, _ => r.below(300) as i64 }}),
            14 => { if r.chance(1, 4) { json!({"op": "clear", "s": s}) } else { json!({"op": "trunc", "s": s, "m": gen_num(r, len)}) } }
            15 => if t == "bb" { if r.chance(1, 2) { json!({"op": "setb", "s": s, "m": gen_num(r, len), "b": [200]}) } else { json!({"op": "remmut", "s": s}) } } else { json!({"op": "conv", "s": s, "to": "sd"}) },
            16 => json!({"op": "conv", "s": s, "to": *r.pick(&["vec", "bm", "trymut"])}),
            _ => json!({"op": "conv", "s": s, "to": "bd"}),
        }
    }
    fn needle(&mut self, r: &mut Rng, s: usize, text: bool) -> J {
        let b = arr(&self.last[s]["b"]);
        if text {
            let cs: Vec<char> = std::str::from_utf8(&b).unwrap_or("").chars().collect();
            if cs.is_empty() || r.chance(1, 4) { return jb(&gen_text(r, 2)); }
            let a = r.below(cs.len()); let e = r.range(a, (a + 3).min(cs.len()));
            return jb(cs[a..e].iter().collect::<String>().as_bytes());
        }
        if b.is_empty() || r.chance(1, 4) { let l = r.below(3); let x = self.blob(r, l); return jb(&x); }
        let a = r.below(b.len()); let e = r.range(a, (a + 3).min(b.len()));
        jb(&b[a..e])
    }
}
