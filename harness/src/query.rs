//! One-shot calls: each event builds its values, makes one call and drops everything.
use crate::mem;
use crate::util::*;
use crate::{q_cmp, q_eco, q_find, q_nom, Suite};
use serde_json::Value as J;

pub struct Query { prof: String }
impl Query { pub fn new(prof: &str) -> Self { mem::reset(); mem::take_events(); Query { prof: prof.into() } } }
impl Suite for Query {
    fn exec(&mut self, op: &J) -> J {
        let r = mem::tracked(|| catch(|| match st(op, "op") {
            "cmp" => q_cmp::exec(op),
            "nom" => q_nom::exec(op),
            "http" => q_eco::http(op),
            "ser" => q_eco::ser(op),
            "de" => q_eco::de(op),
            "dejson" => q_eco::dejson(op),
            "arb" => q_eco::arb(op),
            "render" => q_eco::render(op),
            _ => q_find::exec(op),
        }));
        let evs = mem::take_events();
        let f = |k: u8| -> J { J::Array(evs.iter().filter(|e| e.kind == k).map(|e| serde_json::json!([e.id, enc(e.size), e.align])).collect()) };
        let bad: Vec<J> = evs.iter().filter(|e| e.kind >= 3).map(|e| serde_json::json!([e.id, e.kind])).collect();
        let res = serde_json::json!({"r": r.unwrap_or_else(|()| pan()), "ma": f(1), "mf": f(2), "mb": bad});
        // blocks a panic leaked stay known, but every call starts from a fresh table
        mem::reset();
        res
    }
    fn gen(&mut self, r: &mut Rng, _step: usize) -> Option<J> {
        Some(match self.prof.as_str() {
            "cmp" => q_cmp::gen(r),
            "nom" => q_nom::gen(r),
            "http" => q_eco::gen_http(r),
            "serde" => q_eco::gen_serde(r),
            "arb" => q_eco::gen_arb(r),
            "render" => q_eco::gen_render(r),
            p => q_find::gen(r, p),
        })
    }
}
