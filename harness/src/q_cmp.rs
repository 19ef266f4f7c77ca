//! Comparison, order and hash of one pair of contents over every implemented pair of types.
use crate::mem;
use crate::queue::{piece, spiece, REPS};
use crate::util::*;
use bytedata::{ByteData, ByteQueue, SharedBytes, StringData, StringQueue};
use serde_json::Value as J;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Cut `b` at the given positions (clamped; made character boundaries for text by the caller).
pub fn cut(b: &[u8], cuts: &[usize]) -> Vec<Vec<u8>> {
    mem::untracked(|| {
        let mut v: Vec<usize> = cuts.iter().map(|c| (*c).min(b.len())).collect();
        v.push(0); v.push(b.len()); v.sort_unstable(); v.dedup();
        v.windows(2).map(|w| b[w[0]..w[1]].to_vec()).collect()
    })
}
pub fn bq(b: &[u8], cuts: &[usize], rep: i64) -> ByteQueue<'static> {
    let ps = cut(b, cuts);
    let mut q = ByteQueue::new();
    for (i, p) in ps.iter().enumerate() { q.push_back(piece(p, (rep + i as i64) % REPS)); }
    mem::untracked(|| drop(ps));
    q
}
/// Text queue: cuts inside a character are moved to the next boundary.
pub fn sq(b: &[u8], cuts: &[usize], rep: i64) -> StringQueue<'static> {
    let ps = mem::untracked(|| {
        let s = std::str::from_utf8(b).unwrap();
        let c: Vec<usize> = cuts.iter().map(|c| { let mut c = (*c).min(b.len()); while !s.is_char_boundary(c) { c += 1; } c }).collect();
        cut(b, &c)
    });
    let mut q = StringQueue::new();
    for (i, p) in ps.iter().enumerate() { q.push_back(spiece(p, (rep + i as i64) % REPS)); }
    mem::untracked(|| drop(ps));
    q
}
pub fn shared(b: &[u8], rep: i64) -> SharedBytes {
    match rep % 3 {
        1 => SharedBytes::from(b.to_vec()),
        2 => { let mut x = vec![7u8]; x.extend_from_slice(b); x.push(9); let s = SharedBytes::from_slice(&x); s.into_sliced(1, b.len()) }
        _ => SharedBytes::from_slice(b),
    }
}

/// Records what is fed to a hasher, call by call.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { mem::untracked(|| { self.0.push(200); self.0.push(b.len() as u8); self.0.extend_from_slice(b); }) }
    fn write_u8(&mut self, i: u8) { mem::untracked(|| { self.0.push(1); self.0.push(i); }) }
    fn write_usize(&mut self, i: usize) { mem::untracked(|| { self.0.push(8); self.0.extend_from_slice(&i.to_le_bytes()); }) }
}
fn hashes<T: Hash + ?Sized>(x: &T) -> (String, String) {
    let mut r = Rec::default(); x.hash(&mut r);
    let mut s = std::hash::DefaultHasher::new(); x.hash(&mut s);
    mem::untracked(|| { let Rec(v) = r; (format!("{:x}", s.finish()), v.iter().map(|b| format!("{b:02x}")).collect::<String>()) })
}

struct Side { bd: ByteData<'static>, sb: SharedBytes, bq: ByteQueue<'static>, vec: Vec<u8>, t: Option<Txt> }
struct Txt { sd: StringData<'static>, sq: StringQueue<'static>, st: String }
fn side(b: &[u8], cuts: &[usize], rep: i64) -> Side {
    let t = std::str::from_utf8(b).is_ok().then(|| Txt { sd: spiece(b, (rep + 1) % REPS), sq: sq(b, cuts, rep + 2), st: String::from_utf8(b.to_vec()).unwrap() });
    Side { bd: piece(b, rep % REPS), sb: shared(b, rep), bq: bq(b, cuts, rep + 3), vec: b.to_vec(), t }
}
type Groups<K> = Vec<(K, Vec<String>)>;
fn put<K: PartialEq>(g: &mut Groups<K>, k: K, name: &str) {
    mem::untracked(|| { if let Some(e) = g.iter_mut().find(|e| e.0 == k) { e.1.push(name.into()) } else { g.push((k, vec![name.into()])) } })
}
fn oc(o: Option<Ordering>) -> i64 { match o { Some(Ordering::Less) => -1, Some(Ordering::Equal) => 0, Some(Ordering::Greater) => 1, None => 2 } }

pub fn exec(op: &J) -> J {
    let (b, b2) = (by(op, "b"), by(op, "b2"));
    let (x, y) = (side(&b, &nums(op, "cuts"), ni(op, "rep")), side(&b2, &nums(op, "cuts2"), ni(op, "rep2")));
    let mut eqs: Groups<(bool, bool)> = vec![];
    let mut ords: Groups<(i64, bool, bool, bool, bool)> = vec![];
    macro_rules! eq { ($($n:literal: $l:expr, $r:expr);* $(;)?) => {{ $( { let (l, r) = (&$l, &$r); put(&mut eqs, (*l == *r, *l != *r), $n); } )* }} }
    macro_rules! ord { ($($n:literal: $l:expr, $r:expr);* $(;)?) => {{ $( { let (l, r) = (&$l, &$r); put(&mut ords, (oc(PartialOrd::partial_cmp(l, r)), *l < *r, *l <= *r, *l > *r, *l >= *r), $n); } )* }} }
    macro_rules! full { ($($n:literal: $l:expr, $r:expr);* $(;)?) => {{ $( { let (l, r) = (&$l, &$r); let c = oc(Some(Ord::cmp(l, r))); put(&mut ords, (c, c < 0, c <= 0, c > 0, c >= 0), $n); } )* }} }
    macro_rules! fun { ($($n:literal: $e:expr);* $(;)?) => {{ $( { let v: bool = $e; put(&mut eqs, (v, !v), $n); } )* }} }
    let (xs, ys): (&[u8], &[u8]) = (&x.vec, &y.vec);
    eq! { "bd,bd": x.bd, y.bd; "bd,u8s": x.bd, *ys; "bd,ru8s": x.bd, ys; "u8s,bd": *xs, y.bd; "ru8s,bd": xs, y.bd; "bd,vec": x.bd, y.vec; "vec,bd": x.vec, y.bd;
          "sb,sb": x.sb, y.sb; "u8s,sb": *xs, y.sb; "vec,sb": x.vec, y.sb; "sb,u8s": x.sb, *ys; "sb,vec": x.sb, y.vec; "sb,ru8s": x.sb, ys;
          "bq,bq": x.bq, y.bq; "bq,u8s": x.bq, *ys; "bq,bd": x.bq, y.bd; "bd,bq": x.bd, y.bq; "bq,ru8s": x.bq, ys; "u8s,bq": *xs, y.bq; "ru8s,bq": xs, y.bq; "bq,vec": x.bq, y.vec; "vec,bq": x.vec, y.bq }
    fun! { "bd.eq_const": x.bd.eq_const(&y.bd); "bd.eq_slice": x.bd.eq_slice(ys); "sb.eq_const": x.sb.eq_const(&y.sb); "sb.eq_slice": x.sb.eq_slice(ys); "const_eq": bytedata::const_eq(xs, ys) }
    ord! { "bd,bd": x.bd, y.bd; "bd,u8s": x.bd, *ys; "u8s,bd": *xs, y.bd; "bd,vec": x.bd, y.vec; "vec,bd": x.vec, y.bd;
           "sb,sb": x.sb, y.sb; "u8s,sb": *xs, y.sb; "vec,sb": x.vec, y.sb; "sb,u8s": x.sb, *ys; "sb,vec": x.sb, y.vec; "sb,ru8s": x.sb, ys;
           "bq,bq": x.bq, y.bq; "bq,u8s": x.bq, *ys; "u8s,bq": *xs, y.bq; "bq,vec": x.bq, y.vec; "vec,bq": x.vec, y.bq }
    full! { "cmp bd": x.bd, y.bd; "cmp sb": x.sb, y.sb; "cmp bq": x.bq, y.bq }
    if let Some(t) = &x.t {
        eq! { "sd,u8s": t.sd, *ys; "sd,ru8s": t.sd, ys; "sd,vec": t.sd, y.vec; "sd,bd": t.sd, y.bd; "sd,bq": t.sd, y.bq; "str,bq": *t.st.as_str(), y.bq; "rstr,bq": t.st.as_str(), y.bq;
              "sq,bq": t.sq, y.bq; "sq,bd": t.sq, y.bd; "sq,u8s": t.sq, *ys; "sq,ru8s": t.sq, ys }
        fun! { "sd.eq_slice": t.sd.eq_slice(ys) }
        ord! { "sd,u8s": t.sd, *ys; "sd,vec": t.sd, y.vec; "sd,bd": t.sd, y.bd; "sq,bq": t.sq, y.bq; "sq,bd": t.sq, y.bd; "sq,u8s": t.sq, *ys; "sq,ru8s": t.sq, ys }
    }
    if let Some(t) = &y.t {
        eq! { "u8s,sd": *xs, t.sd; "ru8s,sd": xs, t.sd; "vec,sd": x.vec, t.sd; "bd,sd": x.bd, t.sd; "bq,sd": x.bq, t.sd; "bq,rstr": x.bq, t.st.as_str(); "bq,str": x.bq, *t.st.as_str();
              "bq,sq": x.bq, t.sq; "bd,sq": x.bd, t.sq; "u8s,sq": *xs, t.sq; "ru8s,sq": xs, t.sq }
        ord! { "u8s,sd": *xs, t.sd; "vec,sd": x.vec, t.sd; "bd,sd": x.bd, t.sd; "bq,sq": x.bq, t.sq; "bd,sq": x.bd, t.sq; "u8s,sq": *xs, t.sq }
    }
    if let (Some(t), Some(u)) = (&x.t, &y.t) {
        let (ts, us): (&str, &str) = (&t.st, &u.st);
        eq! { "sd,sd": t.sd, u.sd; "sd,str": t.sd, *us; "sd,rstr": t.sd, us; "str,sd": *ts, u.sd; "rstr,sd": ts, u.sd; "sd,string": t.sd, u.st; "string,sd": t.st, u.sd;
              "sq,sq": t.sq, u.sq; "sq,sd": t.sq, u.sd; "sd,sq": t.sd, u.sq; "sq,rstr": t.sq, us; "sq,str": t.sq, *us; "str,sq": *ts, u.sq; "rstr,sq": ts, u.sq }
        fun! { "sd.eq_const": t.sd.eq_const(&u.sd); "sd.eq_str": t.sd.eq_str(us) }
        ord! { "sd,sd": t.sd, u.sd; "sd,str": t.sd, *us; "str,sd": *ts, u.sd; "sd,string": t.sd, u.st; "string,sd": t.st, u.sd;
               "sq,sq": t.sq, u.sq; "sq,sd": t.sq, u.sd; "sd,sq": t.sd, u.sq; "sq,rstr": t.sq, us; "sq,str": t.sq, *us; "str,sq": *ts, u.sq }
        full! { "cmp sd": t.sd, u.sd; "cmp sq": t.sq, u.sq }
    }
    let mut hs: Vec<(i64, &str, String, (String, String))> = vec![];
    macro_rules! hh { ($s:expr, $g:literal, $n:literal, $e:expr) => {{ let h = hashes(&$e); mem::untracked(|| hs.push(($s, $g, String::from($n), h))); }} }
    for (k, z) in [(1, &x), (2, &y)] {
        hh!(k, "bytes", "bd", z.bd); hh!(k, "bytes", "sb", z.sb); hh!(k, "bytes", "u8s", z.vec[..]); hh!(k, "bq", "bq", z.bq);
        if let Some(t) = &z.t { hh!(k, "str", "sd", t.sd); hh!(k, "str", "str", t.st[..]); }
    }
    let r = mem::untracked(|| {
        let e: Vec<J> = eqs.iter().map(|(k, n)| serde_json::json!([k.0, k.1, n])).collect();
        let o: Vec<J> = ords.iter().map(|(k, n)| serde_json::json!([k.0, k.1, k.2, k.3, k.4, n])).collect();
        let h: Vec<J> = hs.iter().map(|(s, g, n, (a, b))| serde_json::json!([s, g, n, a, b])).collect();
        drop((std::mem::take(&mut eqs), std::mem::take(&mut ords), std::mem::take(&mut hs)));
        serde_json::json!({"eqs": e, "ords": o, "hash": h})
    });
    ok(r)
}
fn gen_side(r: &mut Rng) -> Vec<u8> {
    match r.below(7) {
        6 => if r.chance(1, 3) { // long: around the limits of one-byte lengths and of blocks
            let l = *r.pick(&[63usize, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300]); let x = r.u64() as u8; let mut v = vec![x; l]; for _ in 0..3 { let i = r.below(l); v[i] = r.u64() as u8; } v
        } else { gen_text(r, 9) },
        0 => gen_text(r, 6),
        1 => { let l = gen_len(r); (0..l).map(|_| r.u64() as u8).collect() }
        2 => { let l = r.below(4); (0..l).map(|_| *r.pick(&[0u8, 127, 128, 255])).collect() }
        3 => { let l = *r.pick(&[13usize, 14, 15, 16, 20]); (0..l).map(|_| b'a' + r.below(2) as u8).collect() }
        _ => { let l = r.below(8); (0..l).map(|_| b'a' + r.below(3) as u8).collect() }
    }
}
pub fn gen_cuts(r: &mut Rng, len: usize) -> J {
    let k = match r.below(6) { 0 => 0, 1 => 1, 5 => len, _ => r.below(5) };
    J::Array((0..k).map(|i| J::from(if k == len { i } else { r.below(len + 1) } as i64)).collect())
}
pub fn gen(r: &mut Rng) -> J {
    let b = gen_side(r);
    // mostly near-equal contents: the difference at the end, at a cut, one being a prefix of the other
    let b2 = match r.below(10) {
        0..=3 => b.clone(),
        4 => { let mut c = b.clone(); c.truncate(r.below(b.len() + 1)); c }
        5 => { let mut c = b.clone(); let k = 1 + r.below(3); for _ in 0..k { c.push(*r.pick(&[0u8, b'a', b'b', 255])); } c }
        6 | 7 if !b.is_empty() => { let mut c = b.clone(); let i = if r.chance(1, 2) { b.len() - 1 } else { r.below(b.len()) }; c[i] = c[i].wrapping_add(*r.pick(&[1u8, 255, 128])); c }
        8 if b.len() > 1 => { let mut c = b.clone(); let i = r.below(b.len() - 1); c.swap(i, i + 1); c }
        _ => gen_side(r),
    };
    let (cuts, cuts2) = (gen_cuts(r, b.len()), gen_cuts(r, b2.len()));
    serde_json::json!({"op": "cmp", "b": b, "b2": b2, "rep": r.below(REPS as usize), "rep2": r.below(REPS as usize), "cuts": cuts, "cuts2": cuts2})
}
