//! Search, trim, split and iteration on single values; UTF-8 helpers; constant helpers; chunks.
use crate::mem;
use crate::q_cmp::shared;
use crate::queue::{piece, spiece, REPS};
use crate::steps::hint;
use crate::util::*;
use crate::{run_steps, with_range};
use bytedata::{ByteChunk, StrSliceResult, Utf8CharIndices};
use serde_json::Value as J;
use std::fmt::Write;
macro_rules! json { ($($t:tt)*) => { mem::untracked(|| serde_json::json!($($t)*)) } }

fn pieces<I, F>(it: I, f: F) -> J where I: Iterator, F: Fn(&I::Item) -> J {
    let mut out: Vec<J> = vec![];
    let mut it = it;
    for _ in 0..400 {
        let h = hint(it.size_hint());
        match it.next() { Some(p) => { let v = f(&p); mem::untracked(|| out.push(serde_json::json!([h, [v]]))); } None => { mem::untracked(|| out.push(serde_json::json!([h, []]))); break } }
    }
    // stays finished
    let again = if mem::untracked(|| out.len()) < 400 { it.next().is_none() } else { false };
    mem::untracked(|| serde_json::json!({"p": std::mem::take(&mut out), "fin": again}))
}
fn pair(a: &[u8], b: &[u8]) -> J { json!([jb(a), jb(b)]) }
fn okpair(o: Option<(&[u8], &[u8])>) -> J { match o { Some((a, b)) => ok(pair(a, b)), None => none() } }
fn fill<const N: usize>(vis: &[&[u8]]) -> J { let (d, n) = bytedata::build_const_bytes::<N>([0xEE; N], vis); ok(json!([jb(&d), n])) }

pub fn exec(op: &J) -> J {
    let (b, nd) = (by(op, "b"), by(op, "nd"));
    let rep = ni(op, "rep") % REPS;
    let t = st(op, "t");
    let m = n(op, "m");
    let ps = parts(op, "parts");
    let steps = op["steps"].as_array().cloned().unwrap_or_default();
    let txt = || std::str::from_utf8(&b).unwrap();
    let ndt = || std::str::from_utf8(&nd).unwrap();
    match st(op, "op") {
        "starts" => ok(json!(match t { "bd" => piece(&b, rep).starts_with(&nd), "sb" => shared(&b, rep).starts_with(&nd), "sd" => spiece(&b, rep).starts_with(ndt()), _ => bytedata::const_starts_with(&b, &nd) })),
        "ends" => ok(json!(match t { "bd" => piece(&b, rep).ends_with(&nd), "sb" => shared(&b, rep).ends_with(&nd), "sd" => spiece(&b, rep).ends_with(ndt()), _ => bytedata::const_ends_with(&b, &nd) })),
        "trim" => { let s = spiece(&b, rep); let x = match m { 0 => s.trim(), 1 => s.trim_start(), _ => s.trim_end() }; let v = jb(x.as_bytes()); drop(s); ok(json!([v, jb(x.as_bytes())])) }
        "once" => match t {
            "bd" => match piece(&b, rep).split_once_on(&nd) { Ok((x, y)) => ok(pair(&x, &y)), Err(e) => json!({"k": "err", "v": jb(&e)}) },
            _ => match spiece(&b, rep).split_once_on(ndt()) { Ok((x, y)) => ok(pair(x.as_bytes(), y.as_bytes())), Err(e) => json!({"k": "err", "v": jb(e.as_bytes())}) },
        },
        "split" => match t { "bd" => ok(pieces(piece(&b, rep).split_on(&nd), |p| jb(p))), _ => ok(pieces(spiece(&b, rep).split_on(ndt()), |p| jb(p.as_bytes()))) },
        "iter" => match t {
            "bd" => ok(run_steps!(piece(&b, rep), &steps, |x: u8| json!(x), [])),
            "sd" => ok(run_steps!(spiece(&b, rep), &steps, |x: char| json!(x as u32), [])),
            "sdi" => { let s = spiece(&b, rep); ok(run_steps!(s.iter(), &steps, |x: char| json!(x as u32), [back])) }
            _ => { let s = spiece(&b, rep); ok(run_steps!((&s).into_iter(), &steps, |x: char| json!(x as u32), [back])) }
        },
        // decoding; the helper gets only a part of a larger buffer
        "u8next" | "u8iter" | "u8const" => {
            let mut x = b.clone(); x.extend_from_slice(&by(op, "tail"));
            let s = &x[..b.len()];
            match st(op, "op") {
                "u8next" => { let (v, l) = bytedata::const_utf8_char_next(s); ok(json!([v, l])) }
                "u8iter" => {
                    let mut it = Utf8CharIndices::new(s); let mut out = vec![];
                    for _ in 0..b.len() + 3 {
                        let h = Iterator::size_hint(&it); let h = (h.0, h.1.map_or(-1, |x| x as i64)); let i = it.size_hint();
                        let e = it.next();
                        mem::untracked(|| out.push(match e { Some(Ok((p, c))) => serde_json::json!([h.0, h.1, i.0, i.1, 1, p, c as u32]), Some(Err(e)) => serde_json::json!([h.0, h.1, i.0, i.1, 0, e.valid_up_to, e.error_len]), None => serde_json::json!([h.0, h.1, i.0, i.1, 2, 0, 0]) }));
                    }
                    ok(mem::untracked(|| J::Array(out)))
                }
                _ => {
                    let mut it = Utf8CharIndices::new(s); let mut out = vec![];
                    for _ in 0..b.len() + 2 {
                        let (e, nx) = match it.next_const() { Ok((i, p, c)) => ((1, p, c as u32), i), Err((i, e)) => ((0, e.valid_up_to, u32::from(e.error_len)), i) };
                        it = nx; let rest = it.remaining().len();
                        mem::untracked(|| out.push(serde_json::json!([e.0, e.1, e.2, rest])));
                    }
                    ok(mem::untracked(|| J::Array(out)))
                }
            }
        }
        // constant helpers
        "cst" => match st(op, "fn") {
            "slice" => { let g = rg(op, "rg"); let (lo, hi) = ends(g); match bytedata::const_slice(&b, lo..hi) { Some(x) => ok(jb(x)), None => none() } }
            "slice_str" => { let g = rg(op, "rg"); let (lo, hi) = ends(g); let r = bytedata::const_slice_str(txt(), lo..hi);
                let m = [r.is_ok(), r.is_err(), r.ok().is_some(), r.err().is_some(), catch(|| r.unwrap().len()).is_ok()];
                match r { StrSliceResult::Success(x) => ok(json!([jb(x.as_bytes()), m])), StrSliceResult::OutOfBounds => json!({"k": "oob", "v": m}), StrSliceResult::InvalidUtf8 => json!({"k": "inv", "v": m}) } }
            "find" => match bytedata::const_find_bytes(&b, &nd) { Some(p) => ok(jn(p)), None => none() },
            "once_byte" => okpair(bytedata::const_split_once_byte(&b, m as u8)),
            "once" => okpair(bytedata::const_split_once_bytes(&b, &nd)),
            "once_str" => okpair(bytedata::const_split_once_str(txt(), ndt()).map(|(x, y)| (x.as_bytes(), y.as_bytes()))),
            "or_bytes" => ok(jb(bytedata::const_or_bytes(bl(op, "some").then_some(&b[..]), &nd))),
            "or_str" => ok(jb(bytedata::const_or_str(bl(op, "some").then(txt), ndt()).as_bytes())),
            "build" => { let v: Vec<&[u8]> = ps.iter().map(|p| &p[..]).collect(); match m { 0 => fill::<0>(&v), 1 => fill::<1>(&v), 2 => fill::<2>(&v), 5 => fill::<5>(&v), 8 => fill::<8>(&v), _ => fill::<16>(&v) } }
            "eq" => ok(json!(bytedata::const_eq(&b, &nd))),
            "concat" => CONCATS[m % CONCATS.len()].1(),
            _ => json!({"k": "badop"}),
        },
        // inline chunks
        "chunk" => {
            let c = match st(op, "how") {
                "slice" => ByteChunk::from_slice(&b),
                "byte" => ByteChunk::from_byte(b[0]),
                "default" => ByteChunk::default(),
                "a0" => ByteChunk::from_array(&[0u8; 0]), "a1" => ByteChunk::from_array(&<[u8; 1]>::try_from(&b[..]).unwrap()), "a5" => ByteChunk::from_array(&<[u8; 5]>::try_from(&b[..]).unwrap()),
                "a14" => ByteChunk::from_array(&<[u8; 14]>::try_from(&b[..]).unwrap()), _ => ByteChunk::from_array(&<[u8; 15]>::try_from(&b[..]).unwrap()),
            };
            let p = |c: &ByteChunk| json!([jb(c.as_slice()), c.len(), c.is_empty(), jb({ let d = *c; let e = d.clone(); e.into_sliced(..).as_slice() }), jb(c.as_slice())]);
            match st(op, "fn") {
                "sliced" => { let x = with_range!(rg(op, "rg"), g => c.sliced(g)); ok(json!([p(&c), p(&x)])) }
                "into" => { let x = with_range!(rg(op, "rg"), g => c.into_sliced(g)); ok(json!([p(&x)])) }
                "make" => { let mut c = c; let r = catch(|| with_range!(rg(op, "rg"), g => c.make_sliced(g))); match r { Ok(()) => ok(json!([p(&c)])), Err(()) => json!({"k": "panic", "v": [p(&c)]}) } }
                "write" => { let mut c = c; let e = c.write_str(ndt()); json!({"k": if e.is_ok() { "ok" } else { "err" }, "v": [p(&c)]}) }
                _ => ok(json!([p(&c)])),
            }
        }
        _ => json!({"k": "badop"}),
    }
}
fn ends(g: Rg) -> (usize, usize) {
    use std::ops::Bound::*;
    (match g.s { Included(a) => a, Excluded(a) => a, _ => 0 }, match g.e { Excluded(a) | Included(a) => a, _ => 0 })
}
const A: &str = "héllo";
const B: &[u8] = b"\x00\xff";
type Cc = (&'static [&'static [u8]], fn() -> J);
/// Uses of the concatenation macros: the parts, and the macro's value.
static CONCATS: &[Cc] = &[
    (&[], || ok(jb(bytedata::concat_bytes_static!()))),
    (&[b"a"], || ok(jb(bytedata::concat_bytes_static!(b"a")))),
    (&[b"ab", b"", B, b"c"], || ok(jb(bytedata::concat_bytes_static!(b"ab", b"", B, b"c",)))),
    (&["héllo".as_bytes(), b" ", "wörld".as_bytes()], || { static S: &str = bytedata::concat_str_static!(A, " ", "wörld"); ok(jb(S.as_bytes())) }),
    (&[b"", b""], || ok(jb(bytedata::concat_str_static!("", "").as_bytes()))),
    (&["llo".as_bytes(), "😀".as_bytes()], || ok(jb(bytedata::concat_str_static!(bytedata::const_slice_str(A, 3..6).unwrap(), "😀").as_bytes()))),
];

pub fn bad8(r: &mut Rng) -> Vec<u8> {
    // encodings around every limit of well-formedness
    static S: &[&[u8]] = &[&[0xC0, 0x80], &[0xC1, 0xBF], &[0xC2, 0x80], &[0xDF, 0xBF], &[0xE0, 0x80, 0x80], &[0xE0, 0x9F, 0xBF], &[0xE0, 0xA0, 0x80], &[0xED, 0x9F, 0xBF], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF], &[0xEE, 0x80, 0x80], &[0xEF, 0xBF, 0xBF],
        &[0xF0, 0x80, 0x80, 0x80], &[0xF0, 0x8F, 0xBF, 0xBF], &[0xF0, 0x90, 0x80, 0x80], &[0xF4, 0x8F, 0xBF, 0xBF], &[0xF4, 0x90, 0x80, 0x80], &[0xF5, 0x80, 0x80, 0x80], &[0xF7, 0xBF, 0xBF, 0xBF], &[0xF8, 0x88, 0x80, 0x80, 0x80], &[0xFE], &[0xFF], &[0x80], &[0xBF], &[0x41], &[0x7F], &[0xF0, 0x9F, 0x98, 0x80]];
    let mut v = vec![];
    for _ in 0..r.range(1, 4) {
        let s = *r.pick(S);
        match r.below(6) {
            0 => v.extend_from_slice(&s[..r.below(s.len() + 1)]),
            1 => { let mut x = s.to_vec(); let i = r.below(x.len()); x[i] = *r.pick(&[0x00, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xE0, 0xF0, 0xFF]); v.extend(x) }
            2 => { let mut x = s.to_vec(); let i = r.below(x.len()); x.remove(i); v.extend(x) }
            _ => v.extend_from_slice(s),
        }
    }
    v
}
fn small(r: &mut Rng, max: usize) -> Vec<u8> { let l = r.below(max + 1); (0..l).map(|_| b'a' + r.below(2) as u8).collect() }
fn text2(r: &mut Rng, max: usize) -> Vec<u8> { let l = r.below(max + 1); (0..l).map(|_| *r.pick(&["a", "b", "é", "è", "あ", " ", "\u{a0}", "\u{3000}"])).collect::<String>().into_bytes() }
/// A true prefix or suffix, or one that differs in a single byte, or is one byte too long.
fn affix(r: &mut Rng, b: &[u8], end: bool) -> Vec<u8> {
    let k = if r.chance(1, 3) { b.len() } else { r.below(b.len() + 1) };
    let mut x = if end { b[b.len() - k..].to_vec() } else { b[..k].to_vec() };
    match r.below(5) {
        0 | 1 if k > 0 => { let i = match r.below(3) { 0 => 0, 1 => k - 1, _ => r.below(k) }; x[i] ^= 1 << r.below(8); }
        2 => if end { x.insert(0, b'q') } else { x.push(b'q') },
        _ => {}
    }
    x
}
pub fn gen_steps(r: &mut Rng, len: usize, back: bool) -> J {
    let k = r.range(1, 7); let mut v: Vec<J> = vec![];
    for i in 0..k {
        let s = match r.below(if back { 12 } else { 9 }) { 0..=2 => "next", 3 => "len", 4 | 5 => "nth", 7 if i > 1 => *r.pick(&["count", "last", "rest"]), 9 | 10 => "nb", 11 if i > 1 => "rev", _ => "next" };
        v.push(serde_json::json!([s, gen_num(r, len).min(len as i64 + 2)]));
        if matches!(s, "count" | "last" | "rest" | "rev") { return J::Array(v); }
    }
    if r.chance(2, 3) { v.push(serde_json::json!(["len", 0])); v.push(serde_json::json!([if back && r.chance(1, 3) { "rev" } else { "rest" }, 0])); }
    J::Array(v)
}
pub fn gen(r: &mut Rng, prof: &str) -> J {
    let rep = r.below(REPS as usize);
    match prof {
        "find" => {
            let op = *r.pick(&["starts", "ends", "trim", "once", "split", "split", "iter", "iter"]);
            let text = op == "trim" || r.chance(1, 2);
            let b = match (text, r.below(5)) { (true, 0) => gen_text(r, 8), (true, _) => text2(r, 8), (_, 0) => { let l = gen_len(&mut *r); (0..l).map(|_| r.u64() as u8).collect() } _ => { let k = if r.chance(1, 4) { 20 } else { 8 }; small(r, k) } };
            let nd = match r.below(8) {
                0 => if op == "split" { b"a".to_vec() } else { vec![] },
                1..=4 if !b.is_empty() => { // a part of the content
                    if text { let s: Vec<char> = std::str::from_utf8(&b).unwrap().chars().collect(); let i = r.below(s.len()); let j = r.range(i, s.len().min(i + 3)); s[i..j].iter().collect::<String>().into_bytes() }
                    else { let i = r.below(b.len()); let j = r.range(i, b.len().min(i + 4)); b[i..j].to_vec() } }
                5 => { let mut x = b.clone(); x.push(b'a'); x }
                _ => if text { text2(r, 2) } else { small(r, 3) },
            };
            let nd = if matches!(op, "starts" | "ends") && !text && r.chance(1, 2) { affix(r, &b, op == "ends") } else { nd };
            let nd = if op == "split" && nd.is_empty() { b"b".to_vec() } else { nd };
            match op {
                "trim" => serde_json::json!({"op": op, "t": "sd", "b": b, "rep": rep, "m": r.below(3)}),
                "iter" => { let t = if text { *r.pick(&["sd", "sdi", "sdr"]) } else { "bd" }; let st = gen_steps(r, if text { std::str::from_utf8(&b).unwrap().chars().count() } else { b.len() }, t == "sdi" || t == "sdr"); serde_json::json!({"op": op, "t": t, "b": b, "rep": rep, "steps": st}) }
                "once" | "split" => serde_json::json!({"op": op, "t": if text { "sd" } else { "bd" }, "b": b, "nd": nd, "rep": rep}),
                _ => { let t = if text { "sd" } else { *r.pick(&["bd", "sb", "const"]) }; serde_json::json!({"op": op, "t": t, "b": b, "nd": nd, "rep": rep}) }
            }
        }
        "u8" => {
            let b = match r.below(4) { 0 => gen_text(r, 5), 1 => { let mut v = gen_text(r, 3); v.truncate(r.below(v.len() + 1)); v } _ => bad8(r) };
            let tail = match r.below(3) { 0 => vec![], 1 => vec![0x80, 0xBF, 0x80, 0x80], _ => gen_text(r, 2) };
            serde_json::json!({"op": *r.pick(&["u8next", "u8iter", "u8const"]), "b": b, "tail": tail})
        }
        _ => {
            if r.chance(1, 4) {
                let how = *r.pick(&["slice", "slice", "slice", "byte", "default", "a0", "a1", "a5", "a14", "a15"]);
                let l = match how { "slice" => *r.pick(&[0usize, 1, 2, 7, 13, 14, 15, 20]), "byte" | "a1" => 1, "a5" => 5, "a14" => 14, "a15" => 15, _ => 0 };
                let f = *r.pick(&["id", "sliced", "into", "make", "write", "write"]);
                let b: Vec<u8> = (0..l).map(|_| r.u64() as u8).collect();
                return match f { "write" => { let nd = gen_text(r, 5); serde_json::json!({"op": "chunk", "how": how, "fn": f, "b": b, "nd": nd}) }, "id" => serde_json::json!({"op": "chunk", "how": how, "fn": f, "b": b}), _ => { let g = gen_rg(r, l.min(14)); serde_json::json!({"op": "chunk", "how": how, "fn": f, "b": b, "rg": g}) } };
            }
            if r.chance(1, 4) {
                let f = *r.pick(&["starts", "ends", "eq"]);
                let l = *r.pick(&[0usize, 1, 2, 3, 5, 8, 16, 31, 127, 128, 129, 255, 256, 300]);
                let mut b = vec![*r.pick(&[0u8, 97, 255]); l]; for _ in 0..2 { if l > 0 { let i = r.below(l); b[i] = r.u64() as u8; } }
                return if f == "eq" { let nd = if r.chance(1, 4) { affix(r, &b, false) } else { let mut x = b.clone(); if !x.is_empty() && r.chance(2, 3) { let i = r.below(x.len()); x[i] ^= 1 << r.below(8); } x }; serde_json::json!({"op": "cst", "fn": f, "b": b, "nd": nd}) }
                    else { let nd = affix(r, &b, f == "ends"); serde_json::json!({"op": f, "t": "const", "b": b, "nd": nd, "rep": rep}) };
            }
            let f = *r.pick(&["slice", "slice_str", "slice_str", "find", "find", "once_byte", "once", "once", "once_str", "or_bytes", "or_str", "build", "concat"]);
            let text = f.ends_with("_str");
            let b = if text { text2(r, 6) } else { small(r, 8) };
            let nd = if r.chance(1, 2) && !b.is_empty() { if text { let s = std::str::from_utf8(&b).unwrap(); let k = r.below(s.chars().count()); s.chars().skip(k).take(r.below(3)).collect::<String>().into_bytes() } else { let i = r.below(b.len()); let j = r.range(i, b.len()); b[i..j].to_vec() } } else if text { text2(r, 2) } else { small(r, 4) };
            match f {
                "slice" | "slice_str" => { let (x, y) = (gen_num(r, b.len()), gen_num(r, b.len())); let (x, y) = if r.chance(1, 2) { (x.min(y), x.max(y)) } else { (x, y) }; serde_json::json!({"op": "cst", "fn": f, "b": b, "rg": {"s": ["i", x], "e": ["x", y]}}) }
                "once_byte" => serde_json::json!({"op": "cst", "fn": f, "b": b, "m": *r.pick(&[b'a', b'b', b'c'])}),
                "or_bytes" | "or_str" => serde_json::json!({"op": "cst", "fn": f, "b": b, "nd": nd, "some": r.chance(1, 2)}),
                "build" => { let k = r.below(4); let p: Vec<Vec<u8>> = (0..k).map(|_| { let l = r.below(5); (0..l).map(|_| r.u64() as u8).collect() }).collect(); serde_json::json!({"op": "cst", "fn": f, "parts": p, "m": *r.pick(&[0usize, 1, 2, 5, 8, 16])}) }
                "concat" => { let m = r.below(CONCATS.len()); serde_json::json!({"op": "cst", "fn": f, "m": m, "parts": CONCATS[m].0}) }
                _ => serde_json::json!({"op": "cst", "fn": f, "b": b, "nd": nd}),
            }
        }
    }
}
