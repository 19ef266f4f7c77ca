//! HTTP bodies, serde, arbitrary, rendering.
use crate::mem;
use crate::q_cmp::{bq, gen_cuts, shared, sq};
use crate::queue::{piece, spiece, REPS};
use crate::util::*;
use arbitrary::{Arbitrary, Unstructured};
use bytedata::{ByteData, ByteQueue, SharedBytes, SharedBytesBuilder, SharedStrBuilder, StringData, StringQueue};
use serde::de::{self, Deserialize, Deserializer, Visitor};
use serde_json::Value as J;
use std::fmt::{Debug, Display};
macro_rules! json { ($($t:tt)*) => { mem::untracked(|| serde_json::json!($($t)*)) } }

// ------------------------------------------------------------------ HTTP bodies
/// Content as runs of equal bytes.
fn runs(b: &[u8]) -> J {
    mem::untracked(|| {
        let mut v: Vec<(u8, usize)> = vec![];
        for x in b { match v.last_mut() { Some(l) if l.0 == *x => l.1 += 1, _ => v.push((*x, 1)) } }
        J::Array(v.iter().map(|(b, n)| serde_json::json!([b, n])).collect())
    })
}
fn expand(j: &J) -> Vec<u8> { mem::untracked(|| { let mut v = vec![]; for p in j.as_array().unwrap() { v.resize(v.len() + p[1].as_u64().unwrap() as usize, p[0].as_u64().unwrap() as u8); } v }) }
fn hb4<B: http_body_04::Body<Error = std::convert::Infallible> + Unpin>(mut b: B) -> J where B::Data: AsRef<[u8]> {
    use http_body_04::Body;
    let w = std::task::Waker::noop(); let mut cx = std::task::Context::from_waker(w);
    let mut out: Vec<J> = vec![]; let mut nones = 0;
    while nones < 2 && out.len() < 100 {
        let h = b.size_hint(); let (lo, hi, ex) = (h.lower() as usize, h.upper().map_or(-1, |x| enc(x as usize)), h.exact().map_or(-1, |x| enc(x as usize))); let e = b.is_end_stream();
        let p = match std::pin::Pin::new(&mut b).poll_data(&mut cx) { std::task::Poll::Ready(Some(Ok(d))) => json!(["d", runs(d.as_ref())]), std::task::Poll::Ready(None) => { nones += 1; json!(["n", []]) } _ => json!(["x", []]) };
        mem::untracked(|| out.push(serde_json::json!([enc(lo), hi, ex, e, p])));
    }
    let t = match Body::poll_trailers(std::pin::Pin::new(&mut b), &mut cx) { std::task::Poll::Ready(Ok(None)) => 0, _ => 1 };
    mem::untracked(|| serde_json::json!({"p": std::mem::take(&mut out), "t": t}))
}
fn hb1<B: http_body_1::Body<Error = std::convert::Infallible> + Unpin>(mut b: B) -> J where B::Data: AsRef<[u8]> {
    let w = std::task::Waker::noop(); let mut cx = std::task::Context::from_waker(w);
    let mut out: Vec<J> = vec![]; let mut nones = 0; let mut t = 0;
    while nones < 2 && out.len() < 100 {
        let h = b.size_hint(); let (lo, hi, ex) = (h.lower() as usize, h.upper().map_or(-1, |x| enc(x as usize)), h.exact().map_or(-1, |x| enc(x as usize))); let e = b.is_end_stream();
        let p = match std::pin::Pin::new(&mut b).poll_frame(&mut cx) {
            std::task::Poll::Ready(Some(Ok(f))) => match f.into_data() { Ok(d) => json!(["d", runs(d.as_ref())]), Err(_) => { t = 1; json!(["x", []]) } },
            std::task::Poll::Ready(None) => { nones += 1; json!(["n", []]) }
            _ => json!(["x", []]),
        };
        mem::untracked(|| out.push(serde_json::json!([enc(lo), hi, ex, e, p])));
    }
    mem::untracked(|| serde_json::json!({"p": std::mem::take(&mut out), "t": t}))
}
pub fn http(op: &J) -> J {
    let rep = ni(op, "rep");
    let cs: Vec<Vec<u8>> = mem::untracked(|| op["chunks"].as_array().unwrap().iter().map(expand).collect());
    let flat = mem::untracked(|| cs.concat());
    let r = match (st(op, "t"), n(op, "ver")) {
        ("bd", 4) => hb4(piece(&flat, rep % REPS)),
        ("bd", _) => hb1(piece(&flat, rep % REPS)),
        ("sb", 4) => hb4(shared(&flat, rep)),
        ("sb", _) => hb1(shared(&flat, rep)),
        _ => { let mut q = ByteQueue::new(); for (i, c) in cs.iter().enumerate() { q.push_back(piece(c, (rep + i as i64) % REPS)); } hb1(q) }
    };
    mem::untracked(|| drop((cs, flat)));
    ok(r)
}
pub fn gen_http(r: &mut Rng) -> J {
    let t = *r.pick(&["bd", "sb", "bq"]);
    let k = if t == "bq" { r.below(5) } else { r.below(2) };
    let mut b = 0u8;
    let cs: Vec<J> = (0..k).map(|_| {
        let total = match r.below(9) { 0 => 65535, 1 => 65536, 2 => 65534, 3 => 131070, 4 => 131071, 5 => 65535 + r.below(70000), 6 => r.range(1, 14), _ => r.range(1, 300) };
        let mut left = total; let mut v = vec![];
        while left > 0 { b = b.wrapping_add(1); let l = if v.len() < 4 { r.range(1, left) } else { left }; v.push(serde_json::json!([b, l])); left -= l; }
        J::Array(v)
    }).collect();
    serde_json::json!({"op": "http", "t": t, "ver": if t == "bq" { 1 } else { *r.pick(&[1, 4]) }, "chunks": cs, "rep": r.below(24)})
}

// ------------------------------------------------------------------ serde
/// A serializer that records which primitive was called.
struct RecSer;
macro_rules! noser { ($($f:ident: $t:ty),*) => { $(fn $f(self, _: $t) -> Result<J, serde::de::value::Error> { Ok(json!([stringify!($f), []])) })* } }
impl serde::Serializer for RecSer {
    type Ok = J; type Error = serde::de::value::Error;
    type SerializeSeq = SeqRec; type SerializeTuple = SeqRec;
    type SerializeTupleStruct = serde::ser::Impossible<J, Self::Error>; type SerializeTupleVariant = serde::ser::Impossible<J, Self::Error>; type SerializeMap = serde::ser::Impossible<J, Self::Error>; type SerializeStruct = serde::ser::Impossible<J, Self::Error>; type SerializeStructVariant = serde::ser::Impossible<J, Self::Error>;
    noser!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_unit_struct: &'static str);
    fn serialize_str(self, v: &str) -> Result<J, Self::Error> { Ok(json!(["str", jb(v.as_bytes())])) }
    fn serialize_bytes(self, v: &[u8]) -> Result<J, Self::Error> { Ok(json!(["bytes", jb(v)])) }
    fn serialize_none(self) -> Result<J, Self::Error> { Ok(json!(["none", []])) }
    fn serialize_unit(self) -> Result<J, Self::Error> { Ok(json!(["unit", []])) }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<J, Self::Error> { Ok(json!(["some", []])) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<J, Self::Error> { Ok(json!(["variant", []])) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<J, Self::Error> { Ok(json!(["newtype", []])) }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<J, Self::Error> { Ok(json!(["variant", []])) }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqRec, Self::Error> { Ok(SeqRec) }
    fn serialize_tuple(self, _: usize) -> Result<SeqRec, Self::Error> { Ok(SeqRec) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Self::Error> { Err(de::Error::custom("x")) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Self::Error> { Err(de::Error::custom("x")) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Self::Error> { Err(de::Error::custom("x")) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Self::Error> { Err(de::Error::custom("x")) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Self::Error> { Err(de::Error::custom("x")) }
}
struct SeqRec;
impl serde::ser::SerializeSeq for SeqRec { type Ok = J; type Error = serde::de::value::Error; fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, _: &T) -> Result<(), Self::Error> { Ok(()) } fn end(self) -> Result<J, Self::Error> { Ok(json!(["seq", []])) } }
impl serde::ser::SerializeTuple for SeqRec { type Ok = J; type Error = serde::de::value::Error; fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, _: &T) -> Result<(), Self::Error> { Ok(()) } fn end(self) -> Result<J, Self::Error> { Ok(json!(["tuple", []])) } }

/// A format that offers its content in a chosen form: [form, bytes-or-items].
#[derive(Clone, Copy)]
struct Form<'de>(&'de J, &'de [(*const J, Vec<u8>)]);
impl<'de> Form<'de> {
    fn bytes(&self) -> &'de [u8] { self.1.iter().find(|e| e.0 == self.0 as *const J).map_or(&[], |e| &e.1) }
    fn give<V: Visitor<'de>>(self, v: V) -> Result<V::Value, de::value::Error> {
        let b = self.bytes();
        let s = || std::str::from_utf8(b).unwrap_or("?");
        match self.0[0].as_str().unwrap() {
            "bbytes" => v.visit_borrowed_bytes(b),
            "bytes" => { let c = b.to_vec(); v.visit_bytes(&c) }
            "bytebuf" => v.visit_byte_buf(b.to_vec()),
            "bstr" => v.visit_borrowed_str(s()),
            "str" => { let c = s().to_string(); v.visit_str(&c) }
            "string" => v.visit_string(s().to_string()),
            "char" => v.visit_char(s().chars().next().unwrap_or('x')),
            "seq" => v.visit_seq(Items(self.0[1].as_array().unwrap().iter(), self.1)),
            "unit" => v.visit_unit(),
            "none" => v.visit_none(),
            "some" => v.visit_some(Form(&self.0[1], self.1)),
            "newtype" => v.visit_newtype_struct(Form(&self.0[1], self.1)),
            "bool" => v.visit_bool(true),
            "num" => v.visit_u64(self.0[1].as_u64().unwrap()),
            "i64" => v.visit_i64(-3),
            "u8" => v.visit_u8(7),
            "f64" => v.visit_f64(1.5), "f32" => v.visit_f32(1.5),
            "i8" => v.visit_i8(3), "i16" => v.visit_i16(3), "i32" => v.visit_i32(-3), "i128" => v.visit_i128(3), "u16" => v.visit_u16(3), "u32" => v.visit_u32(3), "u128" => v.visit_u128(3),
            "enum" => v.visit_enum(de::IntoDeserializer::<de::value::Error>::into_deserializer("x")),
            "map" => v.visit_map(NoMap),
            _ => Err(de::Error::custom("form")),
        }
    }
}
struct Items<'de>(std::slice::Iter<'de, J>, &'de [(*const J, Vec<u8>)]);
impl<'de> de::SeqAccess<'de> for Items<'de> {
    type Error = de::value::Error;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Self::Error> {
        match self.0.next() { Some(j) => s.deserialize(Form(j, self.1)).map(Some), None => Ok(None) }
    }
}
struct NoMap;
impl<'de> de::MapAccess<'de> for NoMap {
    type Error = de::value::Error;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, _: K) -> Result<Option<K::Value>, Self::Error> { Ok(None) }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, _: V) -> Result<V::Value, Self::Error> { Err(de::Error::custom("x")) }
}
impl<'de> Deserializer<'de> for Form<'de> {
    type Error = de::value::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> { self.give(v) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn collect<'a>(j: &'a J, out: &mut Vec<(*const J, Vec<u8>)>) {
    match j[0].as_str() {
        Some("some" | "newtype") => collect(&j[1], out),
        Some("seq") => for x in j[1].as_array().unwrap() { collect(x, out) },
        _ => if j[1].is_array() { out.push((j as *const J, arr(&j[1]))) },
    }
}
fn de_run<'de, D: Deserializer<'de>>(t: &str, d: D) -> Result<J, D::Error> {
    let some = |o: Option<J>| match o { Some(v) => json!([v]), None => json!([]) };
    Ok(match t {
        "bd" => jb(&ByteData::deserialize(d)?),
        "bds" => jb(&ByteData::deserialize_static(d)?),
        "bdo" => some(ByteData::deserialize_static_opt(d)?.map(|x| jb(&x))),
        "bdv" => { let v = ByteData::deserialize_static_vec(d)?; let mut o = vec![]; for x in &v { let c = jb(x); mem::untracked(|| o.push(c)); } mem::untracked(|| J::Array(std::mem::take(&mut o))) }
        "bdn" => some(Option::<ByteData>::deserialize(d)?.map(|x| jb(&x))),
        "sb" => jb(&SharedBytes::deserialize(d)?),
        "sd" => jb(StringData::deserialize(d)?.as_bytes()),
        "sds" => jb(StringData::deserialize_static(d)?.as_bytes()),
        "sdo" => some(StringData::deserialize_static_opt(d)?.map(|x| jb(x.as_bytes()))),
        "sdn" => some(Option::<StringData>::deserialize(d)?.map(|x| jb(x.as_bytes()))),
        _ => { let v = StringData::deserialize_static_vec(d)?; let mut o = vec![]; for x in &v { let c = jb(x.as_bytes()); mem::untracked(|| o.push(c)); } mem::untracked(|| J::Array(std::mem::take(&mut o))) }
    })
}
pub fn ser(op: &J) -> J {
    let b = by(op, "b"); let rep = ni(op, "rep");
    fn both<T: serde::Serialize>(x: &T) -> (J, String) { (x.serialize(RecSer).unwrap(), serde_json::to_string(x).unwrap()) }
    let (c, js) = match st(op, "t") { "bd" => both(&piece(&b, rep % REPS)), "sb" => both(&shared(&b, rep)), _ => both(&spiece(&b, rep % REPS)) };
    let plain = if st(op, "t") == "sd" { serde_json::to_string(std::str::from_utf8(&b).unwrap()).unwrap() } else { serde_json::to_string(&b).unwrap() };
    let back = |t: &str| { let mut d = serde_json::Deserializer::from_str(&js); match de_run(t, &mut d) { Ok(v) => json!([v]), Err(_) => json!([]) } };
    let bk: Vec<J> = match st(op, "t") { "sd" => vec![back("sd"), back("sds")], _ => vec![back("bd"), back("bds"), back("sb")] };
    let rd = { let mut d = serde_json::Deserializer::from_reader(js.as_bytes()); match de_run(if st(op, "t") == "sd" { "sds" } else { "bds" }, &mut d) { Ok(v) => json!([v]), Err(_) => json!([]) } };
    let r = json!({"call": c, "same": js == plain, "back": bk, "rd": rd});
    mem::untracked(|| drop(bk));
    ok(r)
}
pub fn de(op: &J) -> J {
    let mut tab = vec![];
    mem::untracked(|| collect(&op["form"], &mut tab));
    let r = match de_run(st(op, "t"), Form(&op["form"], &tab)) { Ok(v) => ok(v), Err(e) => { mem::untracked(|| drop(e)); json!({"k": "err"}) } };
    mem::untracked(|| drop(tab));
    r
}
pub fn dejson(op: &J) -> J {
    let b = by(op, "b");
    // the input is gone before an owned value is looked at
    let t = st(op, "t");
    if t == "bds" || t == "sds" {
        let x = { let mut d = serde_json::Deserializer::from_slice(&b); if t == "bds" { ByteData::deserialize_static(&mut d).map_err(|e| drop(e)) } else { StringData::deserialize_static(&mut d).map(Into::into).map_err(|e| drop(e)) } };
        drop(b);
        return match x { Ok(v) => ok(jb(&v)), Err(()) => json!({"k": "err"}) };
    }
    let mut d = serde_json::Deserializer::from_slice(&b);
    match de_run(t, &mut d) { Ok(v) => ok(v), Err(e) => { drop(e); json!({"k": "err"}) } }
}
fn gen_form(r: &mut Rng, text: bool, depth: usize) -> J {
    let c = |r: &mut Rng| -> Vec<u8> { if text || r.chance(1, 3) { gen_text(r, 8) } else { let l = gen_len(r); (0..l).map(|_| r.u64() as u8).collect() } };
    match r.below(20) {
        0 | 1 => serde_json::json!(["bbytes", c(r)]), 2 | 3 => serde_json::json!(["bytes", c(r)]), 4 | 5 => serde_json::json!(["bytebuf", c(r)]),
        6 => serde_json::json!(["bbytes", crate::q_find::bad8(r)]), 7 => serde_json::json!(["bytes", crate::q_find::bad8(r)]),
        8 | 9 => serde_json::json!(["bstr", gen_text(r, 8)]), 10 | 11 => serde_json::json!(["str", gen_text(r, 8)]), 12 => serde_json::json!(["string", gen_text(r, 8)]),
        13 | 14 if depth > 0 => { let k = r.below(20); let bad = r.chance(1, 5); let v: Vec<J> = (0..k).map(|i| if bad && i + 1 == k { serde_json::json!(["num", 256 + r.below(3)]) } else { serde_json::json!(["num", r.below(256)]) }).collect(); serde_json::json!(["seq", v]) }
        15 if depth > 0 => serde_json::json!(["some", gen_form(r, text, depth - 1)]),
        16 => serde_json::json!([*r.pick(&["unit", "none"]), 0]),
        17 => serde_json::json!(["char", gen_text(r, 1)]),
        18 if depth > 0 => serde_json::json!(["newtype", gen_form(r, text, depth - 1)]),
        _ => serde_json::json!([*r.pick(&["bool", "i64", "u8", "f64", "map", "f32", "i8", "i16", "i32", "i128", "u16", "u32", "u128", "enum"]), 0]),
    }
}
pub fn gen_serde(r: &mut Rng) -> J {
    let rep = r.below(24);
    match r.below(8) {
        0 | 1 => { let t = *r.pick(&["bd", "sb", "sd"]); let b = if t == "sd" { let mut s = gen_text(r, 10); if r.chance(1, 3) { s.extend_from_slice(b"\"\\\n\x01/"); } s } else { let l = gen_len(r); (0..l).map(|_| r.u64() as u8).collect() }; serde_json::json!({"op": "ser", "t": t, "b": b, "rep": rep}) }
        2 => { let t = *r.pick(&["bd", "bds", "bdo", "bdn", "sb", "sd", "sds", "sdo", "sdn"]);
               let tab: Vec<(&[u8], J)> = vec![
                   (b"[1,2,255]", serde_json::json!(["nums", [1, 2, 255]])), (b" [ ]", serde_json::json!(["nums", []])), (b"[256]", serde_json::json!(["nums", [256]])), (b"[-1]", serde_json::json!(["nums", [-1]])),
                   (b"\"abc\"", serde_json::json!(["bstr", b"abc"])), (b"\"a\\nb\"", serde_json::json!(["str", b"a\nb"])), ("\"h\u{e9}llo w\u{f6}rld, longer\"".as_bytes(), serde_json::json!(["bstr", "h\u{e9}llo w\u{f6}rld, longer".as_bytes()])), (b"\"\\u00e9\\ud83d\\ude00\"", serde_json::json!(["str", "\u{e9}\u{1F600}".as_bytes()])),
                   (b"null", serde_json::json!(["unit", 0])), (b"7", serde_json::json!(["num", 7])), (b"{}", serde_json::json!(["map", 0])), (b"true", serde_json::json!(["bool", 0])), (b"[\"a\"]", serde_json::json!(["bad", 0])), (b"[1,2", serde_json::json!(["bad", 0])), (b"\"\\ud800\"", serde_json::json!(["any", 0])), (b"", serde_json::json!(["bad", 0])),
                   (b"[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17]", serde_json::json!(["nums", [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17]]))];
               let (b, form) = r.pick(&tab).clone();
               serde_json::json!({"op": "dejson", "t": t, "b": b, "form": form}) }
        _ => {
            let t = *r.pick(&["bd", "bds", "bdo", "bdn", "bdv", "bdv", "sb", "sd", "sds", "sdo", "sdn", "sdv", "sdv"]);
            let text = t.starts_with("sd");
            let f = if t.ends_with('v') && r.chance(4, 5) { let k = r.below(4); let v: Vec<J> = (0..k).map(|_| if text { serde_json::json!([*r.pick(&["bstr", "str", "string"]), gen_text(r, 8)]) } else { let l = gen_len(r); let c: Vec<u8> = (0..l).map(|_| r.u64() as u8).collect(); serde_json::json!([*r.pick(&["bbytes", "bytes", "bytebuf"]), c]) }).collect(); let mut v = v; if r.chance(1, 3) { v.push(gen_form(r, text, 1)); } serde_json::json!(["seq", v]) }
                else if t.ends_with('o') || t.ends_with('n') { if r.chance(1, 2) { serde_json::json!(["some", gen_form(r, text, 1)]) } else { gen_form(r, text, 2) } }
                else { gen_form(r, text, 2) };
            serde_json::json!({"op": "de", "t": t, "form": f})
        }
    }
}

// ------------------------------------------------------------------ arbitrary
fn arb1<'a, T: Arbitrary<'a>>(e: &'a [u8], rest: bool, show: &dyn Fn(&T) -> J) -> J {
    let mut u = Unstructured::new(e);
    let (lo, hi) = T::size_hint(0);
    let r = if rest { T::arbitrary_take_rest(u) } else { let r = T::arbitrary(&mut u); let left = u.len(); let v = match &r { Ok(x) => json!({"k": "ok", "v": show(x)}), Err(_) => json!({"k": "err", "v": []}) }; drop(r); return mem::untracked(|| serde_json::json!({"o": v, "used": e.len() - left, "lo": enc(lo), "hi": hi.map_or(-1, enc)})) };
    let v = match &r { Ok(x) => json!({"k": "ok", "v": show(x)}), Err(_) => json!({"k": "err", "v": []}) };
    drop(r);
    mem::untracked(|| serde_json::json!({"o": v, "used": -1, "lo": enc(lo), "hi": hi.map_or(-1, enc)}))
}
pub fn arb(op: &J) -> J {
    let b = leak(&by(op, "b")); let rest = st(op, "how") == "rest";
    let one = |x: &[u8], n: usize, e: bool| { let c = jb(x); mem::untracked(|| serde_json::json!([[c], n, 1, e])) };
    let go = || match st(op, "t") {
        "bd" => arb1::<ByteData>(b, rest, &|x| one(x.as_slice(), x.len(), x.is_empty())),
        "sb" => arb1::<SharedBytes>(b, rest, &|x| one(x.as_slice(), x.len(), x.is_empty())),
        "bb" => arb1::<SharedBytesBuilder>(b, rest, &|x| one(x.as_slice(), x.len(), x.is_empty())),
        "sd" => arb1::<StringData>(b, rest, &|x| one(x.as_bytes(), x.len(), x.is_empty())),
        "bq" => arb1::<ByteQueue>(b, rest, &|q| { let mut c = vec![]; for x in q.chunks() { let j = jb(x); mem::untracked(|| c.push(j)); } let (n, k, e) = (q.len(), q.chunk_len(), q.is_empty()); mem::untracked(|| serde_json::json!([std::mem::take(&mut c), n, k, e])) }),
        _ => arb1::<StringQueue>(b, rest, &|q| { let mut c = vec![]; for x in q.chunks() { let j = jb(x.as_bytes()); mem::untracked(|| c.push(j)); } let (n, k, e) = (q.len(), q.chunk_len(), q.is_empty()); mem::untracked(|| serde_json::json!([std::mem::take(&mut c), n, k, e])) }),
    };
    mem::set_fill(0xA5);
    let x = go();
    mem::set_fill(0x3C);
    let y = go();
    mem::set_fill(0xA5);
    ok(mem::untracked(|| { let v = serde_json::json!([x, y]); v }))
}
pub fn gen_arb(r: &mut Rng) -> J {
    let l = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => r.below(8), 4 => r.below(30), _ => r.below(120) };
    let b: Vec<u8> = match r.below(5) { 0 => vec![0; l], 1 => vec![255; l], 2 => { let mut v = vec![]; while v.len() < l { v.extend(gen_text(r, 4)); v.push(r.u64() as u8); } v.truncate(l); v }, _ => (0..l).map(|_| r.u64() as u8).collect() };
    serde_json::json!({"op": "arb", "how": *r.pick(&["arb", "rest"]), "t": *r.pick(&["bd", "sb", "bb", "sd", "bq", "sq"]), "b": b})
}

// ------------------------------------------------------------------ rendering
fn hex<T: std::fmt::LowerHex + std::fmt::UpperHex>(x: &T, up: bool, w: i64) -> String {
    mem::untracked(|| match (up, w) { (false, -1) => format!("{x:x}"), (true, -1) => format!("{x:X}"), (false, w) => format!("{x:w$x}", w = w as usize), (true, w) => format!("{x:w$X}", w = w as usize) })
}
fn disp<T: Display>(x: &T, a: &str, w: i64, p: i64) -> String {
    let (wd, pr) = (w.max(0) as usize, p.max(0) as usize);
    mem::untracked(|| match (a, w >= 0, p >= 0) {
        (_, false, false) => format!("{x}"),
        (_, false, true) => format!("{x:.pr$}"),
        ("<", true, false) => format!("{x:<wd$}"), (">", true, false) => format!("{x:>wd$}"), ("^", true, false) => format!("{x:^wd$}"),
        ("*<", true, false) => format!("{x:*<wd$}"), ("e>", true, false) => format!("{x:é>wd$}"), ("*^", true, false) => format!("{x:*^wd$}"),
        ("<", true, true) => format!("{x:<wd$.pr$}"), (">", true, true) => format!("{x:>wd$.pr$}"), ("^", true, true) => format!("{x:^wd$.pr$}"),
        ("*<", true, true) => format!("{x:*<wd$.pr$}"), ("e>", true, true) => format!("{x:é>wd$.pr$}"), ("*^", true, true) => format!("{x:*^wd$.pr$}"),
        (_, true, false) => format!("{x:wd$}"),
        (_, true, true) => format!("{x:wd$.pr$}"),
    })
}
fn dbg<T: Debug>(x: &T) -> String { mem::untracked(|| format!("{x:?}")) }
pub fn render(op: &J) -> J {
    let b = by(op, "b"); let rep = ni(op, "rep"); let cuts = nums(op, "cuts");
    let (t, f) = (st(op, "t"), st(op, "fn"));
    let (w, p, a) = (op["w"].as_i64().unwrap_or(-1), op["p"].as_i64().unwrap_or(-1), st(op, "al"));
    let txt = || std::str::from_utf8(&b).unwrap();
    let up = f == "uhex";
    let s: String = match (f, t) {
        ("lhex" | "uhex", "bd") => hex(&piece(&b, rep % REPS), up, w),
        ("lhex" | "uhex", "sb") => hex(&shared(&b, rep), up, w),
        ("lhex" | "uhex", "bb") => { let mut x = SharedBytesBuilder::new(); x.extend_from_slice(&b); hex(&x, up, w) }
        ("lhex" | "uhex", "bq") => hex(&bq(&b, &cuts, rep), up, w),
        ("lhex" | "uhex", _) => hex(&bytedata::ByteStringRender::from_slice(&b), up, w),
        ("dbg", "bd") => dbg(&piece(&b, rep % REPS)),
        ("dbg", "bq") => dbg(&bq(&b, &cuts, rep)),
        ("dbg", "sb") => dbg(&shared(&b, rep)),
        ("dbg", "ren") => dbg(&bytedata::ByteStringRender::from_ref(&b)),
        ("dbg", "rens") => dbg(&bytedata::ByteStringRender::from_str(txt())),
        ("dbg", "renf") => dbg(&bytedata::ByteStringRender::from(&b[..])),
        ("dbg", "rensf") => dbg(&bytedata::ByteStringRender::from(txt())),
        ("dbg", "rense") => { let x = bytedata::ByteStringRender::from_str(txt()); dbg(&bytedata::ByteStringRender::from_slice(x.as_slice())) }
        ("dbg", "sd") => dbg(&spiece(&b, rep % REPS)),
        ("dbg", "tb") => { let mut x = SharedStrBuilder::new(); x.push_str(txt()); dbg(&x) }
        ("dbg", "chunk") => dbg(&bytedata::ByteChunk::from_slice(&b)),
        ("dbg", _) => { let v = crate::q_cmp::cut(&b, &cuts); let s = mem::untracked(|| format!("{:?}", bytedata::MultiByteStringRender::new(&v))); mem::untracked(|| drop(v)); s }
        ("esc", "ren") => mem::untracked(|| format!("{}", bytedata::ByteStringRender::from_slice(&b))),
        ("esc", _) => { let v = crate::q_cmp::cut(&b, &cuts); let s = mem::untracked(|| format!("{}", bytedata::MultiByteStringRender::new(&v))); mem::untracked(|| drop(v)); s }
        ("disp", "sd") => disp(&spiece(&b, rep % REPS), a, w, p),
        ("disp", "sq") => disp(&sq(&b, &cuts, rep), a, w, p),
        ("disp", "tb") => { let mut x = SharedStrBuilder::new(); x.push_str(txt()); disp(&x, a, w, p) }
        ("disp", "fsh") => { let x = bytedata::format_shared!("{}", disp(&txt(), a, w, p)); mem::untracked(|| x.as_str().to_string()) }
        ("disp", "fq") => { let x = bytedata::format_queue!("{}", disp(&txt(), a, w, p)); mem::untracked(|| { let mut s = String::new(); for c in x.chunks() { s.push_str(c); } s }) }
        // the formatting macros: literal parts, arguments and a queue written piecewise
        ("fmt", "fsh") => { let x = bytedata::format_shared!("a{}é{:>3}-{}", txt(), n(op, "m"), txt()); mem::untracked(|| x.as_str().to_string()) }
        ("fmt", "fq") => { let x = bytedata::format_queue!("a{}é{:>3}-{}", txt(), n(op, "m"), txt()); mem::untracked(|| { let mut s = String::new(); for c in x.chunks() { s.push_str(c); } s }) }
        ("lit", "fsh") => { let x = bytedata::format_shared!("plain é"); mem::untracked(|| x.as_str().to_string()) }
        ("lit", _) => { let x = bytedata::format_queue!("plain é"); mem::untracked(|| { let mut s = String::new(); for c in x.chunks() { s.push_str(c); } s }) }
        _ => mem::untracked(|| "badop".into()),
    };
    let v = jb(s.as_bytes());
    mem::untracked(|| drop(s));
    ok(v)
}
pub fn gen_render(r: &mut Rng) -> J {
    let f = *r.pick(&["lhex", "uhex", "dbg", "dbg", "esc", "disp", "disp", "fmt", "lit"]);
    let text = matches!(f, "disp" | "fmt" | "lit");
    let t = match f { "lhex" | "uhex" => *r.pick(&["bd", "sb", "bb", "bq", "ren"]), "dbg" => *r.pick(&["bd", "bq", "sb", "ren", "rens", "chunk", "multi", "renf", "rensf", "rense", "sd", "sd", "tb"]), "esc" => *r.pick(&["ren", "multi"]), "disp" => *r.pick(&["sd", "sq", "sq", "tb", "fsh", "fq"]), _ => *r.pick(&["fsh", "fq"]) };
    let b: Vec<u8> = if t == "sd" && f == "dbg" || t == "tb" && f == "dbg" { let mut v = gen_text(r, 4); for _ in 0..r.below(4) { v.push(*r.pick(b"\"\\\n\r\t\0'\x01\x1f ")); } v.extend(gen_text(r, 3)); v } else if text || t.starts_with("rens") { gen_text(r, 6) } else { let l = if t == "chunk" { r.below(15) } else { gen_len(r).min(20) }; let sp = r.chance(1, 2); (0..l).map(|_| if sp { *r.pick(b"\\\"\n\r\t\0\x1f\x20\x7e\x7f\x80\xff'a0") } else { r.u64() as u8 }).collect() };
    let cuts = gen_cuts(r, b.len());
    let w: i64 = match r.below(3) { 0 => -1, _ => r.below(30) as i64 };
    let p: i64 = if r.chance(1, 2) { -1 } else { r.below(8) as i64 };
    match f {
        "lhex" | "uhex" => serde_json::json!({"op": "render", "fn": f, "t": t, "b": b, "rep": r.below(24), "cuts": cuts, "w": w}),
        "disp" => serde_json::json!({"op": "render", "fn": f, "t": t, "b": b, "rep": r.below(24), "cuts": cuts, "w": w, "p": p, "al": *r.pick(&["", "<", ">", "^", "*<", "e>", "*^"])}),
        "fmt" => serde_json::json!({"op": "render", "fn": f, "t": t, "b": b, "m": r.below(2000)}),
        "lit" => serde_json::json!({"op": "render", "fn": f, "t": t}),
        _ => serde_json::json!({"op": "render", "fn": f, "t": t, "b": b, "rep": r.below(24), "cuts": cuts}),
    }
}
