use serde_json::{json, Value as J};
use std::ops::Bound;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9ABC_DEF1); r.u64(); r }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
}

/// Sizes in scripts and traces fit TLC's 32-bit integers: values above 1e9 are
/// monotone stand-ins for the huge machine values.
///   2_000_000_000 - k  <->  usize::MAX - k
///   1_500_000_000 + d  <->  2^32 + d
///   1_400_000_000 + d  <->  2^31 + d
pub fn dec(v: i64) -> usize {
    if v > 1_900_000_000 { usize::MAX - (2_000_000_000 - v) as usize }
    else if v > 1_450_000_000 { ((1i128 << 32) + (v - 1_500_000_000) as i128) as usize }
    else if v > 1_000_000_000 { ((1i128 << 31) + (v - 1_400_000_000) as i128) as usize }
    else { v as usize }
}
pub fn enc(v: usize) -> i64 {
    if v <= 1_000_000_000 { return v as i64; }
    let top = usize::MAX - v;
    if top < 50_000_000 { return 2_000_000_000 - top as i64; }
    let m = v as i128 - (1i128 << 32);
    if m.abs() < 40_000_000 { return (1_500_000_000 + m) as i64; }
    let m = v as i128 - (1i128 << 31);
    if m.abs() < 40_000_000 { return (1_400_000_000 + m) as i64; }
    1_300_000_000
}
pub fn n(j: &J, k: &str) -> usize { dec(j[k].as_i64().unwrap_or(0)) }
pub fn ni(j: &J, k: &str) -> i64 { j[k].as_i64().unwrap_or(0) }
pub fn st<'a>(j: &'a J, k: &str) -> &'a str { j[k].as_str().unwrap_or("") }
pub fn bl(j: &J, k: &str) -> bool { j[k].as_bool().unwrap_or(false) }
/// Scaled histories: one byte of the script stands for `scale()` equal bytes in the library, one unit of
/// a length or position for `scale()` units. Results are scaled back; what does not divide is recorded as it is not.
thread_local! { static SCALE: std::cell::Cell<usize> = const { std::cell::Cell::new(1) }; }
pub fn scale() -> usize { SCALE.with(|s| s.get()) }
pub fn set_scale(k: usize) { SCALE.with(|s| s.set(k)) }
fn up(v: Vec<u8>) -> Vec<u8> { let k = scale(); if k == 1 { v } else { v.iter().flat_map(|x| std::iter::repeat(*x).take(k)).collect() } }
fn upn(v: usize) -> usize { if v > 1_000_000_000 { v } else { v * scale() } }
/// A length or position in bytes, of a script.
pub fn nl(j: &J, k: &str) -> usize { upn(n(j, k)) }
/// A length or position in bytes, of a result.
pub fn jl(v: usize) -> J { let k = scale(); if k == 1 || v > 1_000_000_000 { jn(v) } else if v % k == 0 { jn(v / k) } else { J::from(-9 - (v % 1_000_000) as i64) } }
pub fn by(j: &J, k: &str) -> Vec<u8> { up(arr(&j[k])) }
pub fn arr(j: &J) -> Vec<u8> { j.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap_or(0) as u8).collect()).unwrap_or_default() }
pub fn parts(j: &J, k: &str) -> Vec<Vec<u8>> { j[k].as_array().map(|a| a.iter().map(|x| up(arr(x))).collect()).unwrap_or_default() }
pub fn nums(j: &J, k: &str) -> Vec<usize> { j[k].as_array().map(|a| a.iter().map(|x| dec(x.as_i64().unwrap_or(0))).collect()).unwrap_or_default() }
pub fn jb(b: &[u8]) -> J {
    crate::mem::untracked(|| {
        let k = scale();
        if k > 1 {
            if b.len() % k != 0 || b.chunks(k).any(|c| c.iter().any(|x| *x != c[0])) { return json!([-1, b.len()]); }
            return J::Array(b.iter().step_by(k).map(|x| J::from(*x)).collect());
        }
        if b.len() > 200_000 { return json!([-1, enc(b.len())]); }
        J::Array(b.iter().map(|x| J::from(*x)).collect())
    })
}
pub fn jn(v: usize) -> J { J::from(enc(v)) }
/// A leaked copy, never freed and not tracked.
pub fn leak(b: &[u8]) -> &'static [u8] {
    crate::mem::untracked(|| Box::leak(b.to_vec().into_boxed_slice()))
}
pub fn leak_str(b: &[u8]) -> &'static str {
    std::str::from_utf8(leak(b)).unwrap_or("")
}

/// Range argument {"s":[kind,val],"e":[kind,val]} with kinds i(ncluded), x(excluded), u(nbounded).
#[derive(Clone, Copy, Debug)]
pub struct Rg { pub s: Bound<usize>, pub e: Bound<usize> }
pub fn rg(j: &J, k: &str) -> Rg {
    let f = |a: &J, start: bool| -> Bound<usize> {
        let v = dec(a[1].as_i64().unwrap_or(0));
        // an included end and an excluded start are one less than the position they stand for
        let v = if (a[0] == "i") != start && v < 1_000_000_000 { upn(v + 1) - 1 } else { upn(v) };
        match a[0].as_str().unwrap_or("u") { "i" => Bound::Included(v), "x" => Bound::Excluded(v), _ => Bound::Unbounded }
    };
    Rg { s: f(&j[k]["s"], true), e: f(&j[k]["e"], false) }
}
/// Call `$body` with `$r` bound to the natural range type of the two bounds.
#[macro_export]
macro_rules! with_range {
    ($rg:expr, $r:ident => $body:expr) => {{
        use std::ops::Bound::*;
        let g = $rg;
        match (g.s, g.e) {
            (Included(a), Excluded(b)) => { let $r = a..b; $body }
            (Included(a), Included(b)) => { let $r = a..=b; $body }
            (Included(a), Unbounded) => { let $r = a..; $body }
            (Unbounded, Excluded(b)) => { let $r = ..b; $body }
            (Unbounded, Included(b)) => { let $r = ..=b; $body }
            (Unbounded, Unbounded) => { let $r = ..; $body }
            (a, b) => { let $r = (a, b); $body }
        }
    }};
}
pub fn gen_num(r: &mut Rng, len: usize) -> i64 {
    match r.below(24) {
        0 => 2_000_000_000, // usize::MAX
        1 => 2_000_000_000 - r.below(20) as i64,
        2 => 1_500_000_000 + r.below(20) as i64 - 4,
        3 => len as i64 + 1 + r.below(3) as i64,
        4 | 5 => len as i64,
        6 | 7 => 0,
        8 => len.saturating_sub(1) as i64,
        _ => r.below(len + 1) as i64,
    }
}
pub fn gen_rg(r: &mut Rng, len: usize) -> J {
    // mostly valid ranges, with every bound kind
    let (a, b) = if r.chance(1, 4) {
        // most of it is kept
        let q = len / 4; (r.below(q + 1) as i64, (len - r.below(q + 1)) as i64)
    } else if r.chance(5, 8) {
        let x = r.below(len + 1) as i64; let y = r.below(len + 1) as i64; (x.min(y), x.max(y))
    } else { (gen_num(r, len), gen_num(r, len)) };
    let s = match r.below(8) { 0..=4 => json!(["i", a]), 5 => if a > 0 { json!(["x", a - 1]) } else { json!(["x", 0]) }, _ => json!(["u", 0]) };
    let e = match r.below(8) { 0..=3 => json!(["x", b]), 4 | 5 => if b > 0 { json!(["i", b - 1]) } else { json!(["i", 0]) }, _ => json!(["u", 0]) };
    json!({"s": s, "e": e})
}
static ALPHA: &[&str] = &["a", "b", "é", "ß", "€", "あ", "😀", "𝄞", " ", "\n", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "x", "y", "z", "\0", "\r", "\r\n", "\t", "\u{feff}", "\u{2028}", "\u{85}", "\"", "\\", "0"];
pub fn gen_text(r: &mut Rng, maxchars: usize) -> Vec<u8> {
    let k = r.below(maxchars + 1);
    let ascii = r.chance(1, 3);
    let mut s = String::new();
    for _ in 0..k { if ascii { s.push((b'a' + r.below(4) as u8) as char) } else { s.push_str(*r.pick(ALPHA)) } }
    s.into_bytes()
}
pub fn gen_len(r: &mut Rng) -> usize {
    match r.below(12) { 0 => 0, 1 => 1, 2 => 13, 3 => 14, 4 => 15, 5 => 16, 6 => r.range(17, 40), 7 | 8 => r.range(2, 12), 9 => r.range(40, 80), _ => r.range(15, 24) }
}
pub fn err_str(e: &dyn std::any::Any) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { (*s).to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
/// Run something that may panic; the panic is a result.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(v) => Ok(v), Err(e) => { drop(e); Err(()) } }
}
pub fn ok(v: J) -> J { crate::mem::untracked(|| json!({"k": "ok", "v": v})) }
pub fn okn() -> J { crate::mem::untracked(|| json!({"k": "ok"})) }
pub fn pan() -> J { crate::mem::untracked(|| json!({"k": "panic"})) }
pub fn none() -> J { crate::mem::untracked(|| json!({"k": "none"})) }
