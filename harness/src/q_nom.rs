//! The input traits of the parser-combinator library on all four types.
use crate::mem;
use crate::q_cmp::{bq, gen_cuts, sq};
use crate::queue::{piece, spiece, REPS};
use crate::util::*;
use bytedata::{ByteData, ByteQueue, StringData, StringQueue};
use nom::error::{Error, ErrorKind};
use nom::{Compare, CompareResult, Err as NErr, FindSubstring, FindToken, InputIter, InputLength, InputTake, InputTakeAtPosition, Needed, Slice};
use serde_json::Value as J;
macro_rules! json { ($($t:tt)*) => { mem::untracked(|| serde_json::json!($($t)*)) } }

trait V { fn show(&self) -> J; }
impl V for ByteData<'_> { fn show(&self) -> J { jb(self) } }
impl V for StringData<'_> { fn show(&self) -> J { jb(self.as_bytes()) } }
impl V for ByteQueue<'_> { fn show(&self) -> J { let mut v = mem::untracked(Vec::new); for c in self.chunks() { mem::untracked(|| v.extend_from_slice(c)); } let r = jb(&v); mem::untracked(|| drop(v)); r } }
impl V for StringQueue<'_> { fn show(&self) -> J { self.as_bytequeue().show() } }
fn cr(c: CompareResult) -> J { json!({"k": "ok", "v": match c { CompareResult::Ok => "ok", CompareResult::Incomplete => "inc", CompareResult::Error => "err" }}) }
fn op1(x: Option<usize>) -> J { match x { Some(v) => ok(jn(v)), None => none() } }
fn need(n: Needed) -> J { match n { Needed::Unknown => json!({"k": "unknown"}), Needed::Size(s) => json!({"k": "size", "v": enc(s.get())}) } }
fn res<I: V>(r: Result<(I, I), NErr<Error<I>>>) -> J {
    match r {
        Ok((a, b)) => { let (a, b) = (a.show(), b.show()); json!({"k": "ok", "v": [a, b]}) }
        Err(NErr::Incomplete(Needed::Unknown)) => json!({"k": "inc", "v": -1}),
        Err(NErr::Incomplete(Needed::Size(s))) => json!({"k": "inc", "v": s.get()}),
        Err(NErr::Error(e)) => { let i = e.input.show(); json!({"k": "err", "v": [i, e.code == ErrorKind::Digit]}) }
        Err(NErr::Failure(e)) => { let i = e.input.show(); json!({"k": "fail", "v": [i, e.code == ErrorKind::Digit]}) }
    }
}
fn common<I, T: Copy + Into<u32>>(x: &I, op: &J, set: &[u32]) -> J
where I: V + InputTake + InputLength + InputIter<Item = T> + InputTakeAtPosition<Item = T> + Slice<std::ops::Range<usize>> + Slice<std::ops::RangeTo<usize>> + Slice<std::ops::RangeFrom<usize>> + Slice<std::ops::RangeFull> {
    let m = n(op, "m");
    let pred = |t: T| { let c: u32 = t.into(); set.contains(&c) };
    match st(op, "fn") {
        "len" => ok(jn(x.input_len())),
        "take" => { let r = x.take(m); ok(r.show()) }
        "take_split" => { let (a, b) = x.take_split(m); let (a, b) = (a.show(), b.show()); ok(json!([a, b])) }
        "position" => op1(x.position(pred)),
        "slice_index" => match x.slice_index(m) { Ok(v) => ok(jn(v)), Err(e) => need(e) },
        "indices" => { let mut v = mem::untracked(Vec::new); for (i, t) in x.iter_indices() { let c: u32 = t.into(); mem::untracked(|| v.push(serde_json::json!([i, c]))); } ok(mem::untracked(|| J::Array(v))) }
        "elements" => { let mut v = mem::untracked(Vec::new); for t in x.iter_elements() { let c: u32 = t.into(); mem::untracked(|| v.push(J::from(c))); } ok(mem::untracked(|| J::Array(v))) }
        "split" => res(x.split_at_position::<_, Error<I>>(pred)),
        "split1" => res(x.split_at_position1::<_, Error<I>>(pred, ErrorKind::Digit)),
        "splitc" => res(x.split_at_position_complete::<_, Error<I>>(pred)),
        "split1c" => res(x.split_at_position1_complete::<_, Error<I>>(pred, ErrorKind::Digit)),
        "slice" => {
            use std::ops::Bound::*;
            let g = rg(op, "rg");
            let r = match (g.s, g.e) { (Included(a), Excluded(b)) => x.slice(a..b), (Included(a), _) => x.slice(a..), (_, Excluded(b)) => x.slice(..b), _ => x.slice(..) };
            ok(r.show())
        }
        _ => json!({"k": "badop"}),
    }
}
pub fn exec(op: &J) -> J {
    let (b, nd) = (by(op, "b"), by(op, "nd"));
    let (rep, cuts) = (ni(op, "rep"), nums(op, "cuts"));
    let set: Vec<u32> = nums(op, "set").iter().map(|x| *x as u32).collect();
    let (nbd, nsd);
    let nds = std::str::from_utf8(&nd).ok();
    nbd = piece(&nd, (rep + 5) % REPS);
    nsd = nds.map(|_| spiece(&nd, (rep + 6) % REPS));
    let f = st(op, "fn"); let at = st(op, "at");
    if f == "hex" || f == "hexf" {
        use nom::HexDisplay;
        let (w, m) = (n(op, "w"), n(op, "m"));
        let s = match st(op, "t") {
            "bd" => { let x = piece(&b, rep % REPS); if f == "hex" { x.to_hex(w) } else { x.to_hex_from(w, m) } }
            "sd" => { let x = spiece(&b, rep % REPS); if f == "hex" { x.to_hex(w) } else { x.to_hex_from(w, m) } }
            "bq" => { let x = bq(&b, &cuts, rep); if f == "hex" { x.to_hex(w) } else { x.to_hex_from(w, m) } }
            _ => { let x = sq(&b, &cuts, rep); if f == "hex" { x.to_hex(w) } else { x.to_hex_from(w, m) } }
        };
        return ok(jb(s.as_bytes()));
    }
    macro_rules! cmp { ($x:expr) => {{ let x = $x; match (f, at) {
        ("cmp", "bd") => cr(x.compare(nbd)), ("cmp", "rbd") => cr(x.compare(&nbd)), ("cmp", "u8s") => cr(x.compare(&nd[..])), ("cmp", "str") => cr(x.compare(nds.unwrap())),
        ("cmpnc", "bd") => cr(x.compare_no_case(nbd)), ("cmpnc", "rbd") => cr(x.compare_no_case(&nbd)), ("cmpnc", "u8s") => cr(x.compare_no_case(&nd[..])), ("cmpnc", "str") => cr(x.compare_no_case(nds.unwrap())),
        ("find", "bd") => op1(x.find_substring(nbd)), ("find", "rbd") => op1(x.find_substring(&nbd)), ("find", "u8s") => op1(x.find_substring(&nd[..])), ("find", "str") => op1(x.find_substring(nds.unwrap())),
        ("token", "u8") => ok(json!(x.find_token(n(op, "m") as u8))), ("token", "ru8") => ok(json!(x.find_token(&(n(op, "m") as u8)))),
        ("token", "char") => ok(json!(x.find_token(char::from_u32(n(op, "m") as u32).unwrap()))), ("token", "rchar") => ok(json!(x.find_token(&char::from_u32(n(op, "m") as u32).unwrap()))),
        _ => json!({"k": "badop"}) }}} }
    macro_rules! cmps { ($x:expr, $find:expr) => {{ let x = $x; match (f, at) {
        ("cmp", "sd") => cr(x.compare(nsd.unwrap())), ("cmp", "rsd") => cr(x.compare(nsd.as_ref().unwrap())),
        ("cmpnc", "sd") => cr(x.compare_no_case(nsd.unwrap())), ("cmpnc", "rsd") => cr(x.compare_no_case(nsd.as_ref().unwrap())),
        _ => $find(x) }}} }
    match st(op, "t") {
        "bd" => { let x = piece(&b, rep % REPS); if f == "bytes" { return ok(jb(nom::AsBytes::as_bytes(&x))) } if at.is_empty() { common(&x, op, &set) } else { cmp!(x) } }
        "sd" => { let x = spiece(&b, rep % REPS); if f == "bytes" { return ok(jb(nom::AsBytes::as_bytes(&x))) } if at.is_empty() { common(&x, op, &set) } else if at == "sd" || at == "rsd" { cmps!(x, |x: StringData<'static>| op1(if at == "sd" { x.find_substring(spiece(&nd, 0)) } else { let y = spiece(&nd, 1); x.find_substring(&y) })) } else { cmp!(x) } }
        "bq" => { let x = bq(&b, &cuts, rep); if at.is_empty() { common(&x, op, &set) } else if at == "sd" || at == "rsd" { cmps!(x, |_| json!({"k": "badop"})) } else { cmp!(x) } }
        _ => { let x = sq(&b, &cuts, rep); if at.is_empty() { common(&x, op, &set) } else if at == "sd" || at == "rsd" { cmps!(x, |_| json!({"k": "badop"})) } else { cmp!(x) } }
    }
}
static CH: &[&str] = &["a", "A", "b", "B", "é", "É", "z", "[", "İ", "K", "k", "Ω", "ω", "1", "あ"];
fn txt(r: &mut Rng, max: usize) -> Vec<u8> { let l = r.below(max + 1); (0..l).map(|_| *r.pick(CH)).collect::<String>().into_bytes() }
fn byt(r: &mut Rng, max: usize) -> Vec<u8> { let l = r.below(max + 1); (0..l).map(|_| *r.pick(b"aAbB1@[`{\xc3\x89\xe9")).collect() }
fn flip(r: &mut Rng, b: &[u8], text: bool) -> Vec<u8> {
    if text { std::str::from_utf8(b).unwrap().chars().map(|c| if r.chance(1, 2) { c.to_string() } else if c.is_lowercase() { c.to_uppercase().collect() } else { c.to_lowercase().collect() }).collect::<String>().into_bytes() }
    else { b.iter().map(|c| if r.chance(1, 3) { c ^ 0x20 } else { *c }).collect() }
}
pub fn gen(r: &mut Rng) -> J {
    let t = *r.pick(&["bd", "sd", "bq", "sq"]);
    let text = t == "sd" || t == "sq";
    if r.chance(1, 16) {
        let l = gen_len(r);
        let b: Vec<u8> = if t == "bq" { (0..l).map(|_| r.u64() as u8).collect() } else if t == "sq" { gen_text(r, 10) } else { (0..l).map(|_| r.below(128) as u8).collect() };
        let f = *r.pick(&["hex", "hexf"]);
        let m = if t.ends_with('q') { r.below(b.len() + 1) } else { *r.pick(&[0usize, 1, 16, 255, 4096, 70_000_000]) };
        return serde_json::json!({"op": "nom", "fn": f, "t": t, "rep": r.below(24), "cuts": gen_cuts(r, b.len()), "w": match r.below(4) { 0 => 1, 1 => b.len() + 1, _ => r.range(1, 16) }, "m": m, "b": b});
    }
    let b = if r.chance(1, 12) { vec![] } else if text { txt(r, 7) } else if r.chance(1, 3) { txt(r, 6) } else { byt(r, 9) };
    let f = *r.pick(&["cmp", "cmpnc", "cmpnc", "find", "find", "token", "len", "take", "take_split", "position", "slice_index", "indices", "elements", "split", "split1", "splitc", "split1c", "slice", "bytes"]);
    let f = if f == "bytes" && t.ends_with('q') { "len" } else { f };
    let mut o = serde_json::json!({"op": "nom", "fn": f, "t": t, "b": b, "rep": r.below(24), "cuts": gen_cuts(r, b.len())});
    let chars: Vec<(usize, u32)> = if text { std::str::from_utf8(&b).unwrap().char_indices().map(|(i, c)| (i, c as u32)).collect() } else { b.iter().enumerate().map(|(i, c)| (i, *c as u32)).collect() };
    match f {
        "cmp" | "cmpnc" | "find" => {
            let mut at = *r.pick(&["bd", "rbd", "u8s", "str", "sd", "rsd"]);
            if (t == "bd") && (at == "sd" || at == "rsd") { at = "str" }
            if f == "find" && t.ends_with('q') && (at == "sd" || at == "rsd") { at = "str" }
            let ntext = matches!(at, "str" | "sd" | "rsd");
            let valid = std::str::from_utf8(&b).is_ok();
            let nd: Vec<u8> = if r.chance(1, 10) { vec![] }
                else if r.chance(3, 4) && !b.is_empty() && (valid || !ntext) {
                    let (lo, hi) = if f == "find" { let i = r.below(b.len()); (i, r.range(i, b.len().min(i + 4))) } else { (0, r.range(1, b.len())) };
                    let (mut lo, mut hi) = (lo, hi);
                    if ntext { let s = std::str::from_utf8(&b).unwrap(); while !s.is_char_boundary(lo) { lo -= 1 } while !s.is_char_boundary(hi) { hi += 1 } }
                    let mut x = b[lo..hi].to_vec();
                    if f == "cmpnc" || r.chance(1, 5) { let tx = std::str::from_utf8(&x).is_ok() && ntext; x = flip(r, &x, tx); }
                    if r.chance(1, 4) { x.extend_from_slice(if ntext { "aé".as_bytes() } else { b"a\xc3" }); }
                    if r.chance(1, 6) && !ntext && !x.is_empty() { let i = r.below(x.len()); x[i] ^= *r.pick(&[1u8, 0x20, 0x80]); }
                    x }
                else if ntext { txt(r, 3) } else { byt(r, 3) };
            let nd = if ntext && std::str::from_utf8(&nd).is_err() { b"a".to_vec() } else { nd };
            o["at"] = J::from(at); o["nd"] = serde_json::json!(nd);
        }
        "token" => {
            let at = *r.pick(&["u8", "ru8", "char", "rchar"]);
            o["at"] = J::from(at);
            let byte_char = !text && at.ends_with("char");
            let m = if r.chance(1, 2) && !chars.is_empty() { if at.ends_with("u8") { *r.pick(&b) as u32 } else { r.pick(&chars).1 } } else { *r.pick(&[97u32, 65, 49, 122]) };
            o["m"] = J::from(if byte_char && m > 127 { 98 } else { m });
        }
        "take" | "take_split" | "slice_index" => { let k = if r.chance(2, 3) { if f == "slice_index" { r.below(chars.len() + 2) as i64 } else if chars.is_empty() || r.chance(1, 4) { b.len() as i64 } else { r.pick(&chars).0 as i64 } } else { gen_num(r, b.len()) }; o["m"] = J::from(k); }
        "position" | "split" | "split1" | "splitc" | "split1c" => {
            let mut s: Vec<u32> = vec![]; if !chars.is_empty() { for _ in 0..r.below(3) { s.push(r.pick(&chars).1); } } if r.chance(1, 2) { s.push(*r.pick(&[98u32, 65, 233])); }
            o["set"] = serde_json::json!(s);
        }
        "slice" => {
            let p = |r: &mut Rng| if chars.is_empty() || r.chance(1, 5) { gen_num(r, b.len()) } else if r.chance(1, 4) { b.len() as i64 } else { r.pick(&chars).0 as i64 };
            let (x, y) = (p(r), p(r)); let (x, y) = if r.chance(4, 5) { (x.min(y), x.max(y)) } else { (x, y) };
            o["rg"] = match r.below(5) { 0 => serde_json::json!({"s": ["i", x], "e": ["u", 0]}), 1 => serde_json::json!({"s": ["u", 0], "e": ["x", y]}), 2 => serde_json::json!({"s": ["u", 0], "e": ["u", 0]}), _ => serde_json::json!({"s": ["i", x], "e": ["x", y]}) };
        }
        _ => {}
    }
    o
}
