//! Running a list of steps on an iterator and reporting what each gave.
use crate::mem;
use crate::util::*;
use serde_json::Value as J;
macro_rules! json { ($($t:tt)*) => { mem::untracked(|| serde_json::json!($($t)*)) } }
pub fn opt(v: Option<J>) -> J { match v { Some(x) => json!([x]), None => json!([]) } }
pub fn hint(h: (usize, Option<usize>)) -> J { json!([enc(h.0), h.1.map_or(-1, enc)]) }

/// Run a list of steps on an iterator. $skip/$take: the type's own adaptors (or none).
#[macro_export]
macro_rules! run_steps {
    ($it:expr, $steps:expr, $enc:expr, [$($cap:ident),*]) => {{
        let mut it = Some($it); let mut out: Vec<J> = vec![];
        for st in $steps { // [name, n]
            let name = st[0].as_str().unwrap_or(""); let k = $crate::util::dec(st[1].as_i64().unwrap_or(0));
            let Some(mut i) = it.take() else { break };
            match name {
                "next" => { out.push($crate::steps::opt(i.next().map($enc))); it = Some(i); }
                "nth" => { out.push($crate::steps::opt(i.nth(k).map($enc))); it = Some(i); }
                "len" => { out.push($crate::steps::hint(i.size_hint())); it = Some(i); }
                "count" => { out.push($crate::util::jn(i.count())); }
                "last" => { out.push($crate::steps::opt(i.last().map($enc))); }
                "rest" => { out.push(J::Array(i.take(3000).map($enc).collect())); }
                $( x if $crate::run_steps!(@name $cap, x) => { $crate::run_steps!(@do $cap, i, it, out, k, $enc, x); } )*
                _ => { it = Some(i); out.push(json!("nostep")); }
            }
        }
        J::Array(out)
    }};
    (@name back, $x:expr) => { $x == "nb" || $x == "rev" };
    (@name skip, $x:expr) => { $x == "skip" };
    (@name take, $x:expr) => { $x == "take" };
    (@name exact, $x:expr) => { $x == "elen" };
    (@name inh, $x:expr) => { $x == "emp" };
    (@do back, $i:ident, $it:ident, $out:ident, $k:ident, $enc:expr, $x:ident) => { if $x == "nb" { $out.push($crate::steps::opt($i.next_back().map($enc))); $it = Some($i); } else { $out.push(J::Array($i.rev().map($enc).collect())); } };
    (@do skip, $i:ident, $it:ident, $out:ident, $k:ident, $enc:expr, $x:ident) => { $out.push(json!([])); $it = Some($i.skip($k)); };
    (@do take, $i:ident, $it:ident, $out:ident, $k:ident, $enc:expr, $x:ident) => { $out.push(json!([])); $it = Some($i.take($k)); };
    (@do exact, $i:ident, $it:ident, $out:ident, $k:ident, $enc:expr, $x:ident) => { $out.push(json!([$i.len(), ExactSizeIterator::len(&$i)])); $it = Some($i); };
    (@do inh, $i:ident, $it:ident, $out:ident, $k:ident, $enc:expr, $x:ident) => { $out.push(json!($i.is_empty())); $it = Some($i); };
}
pub fn gen_steps(r: &mut Rng, len: usize, names: &[&str]) -> J {
    let k = r.range(1, 7);
    J::Array((0..k).map(|_| { let nm = *r.pick(names); json!([nm, match nm { "nth" | "skip" | "take" => match r.below(12) { 0 => 2_000_000_000, 1 => 1_999_999_999, _ => r.below(len.min(12) + 2) as i64 }, _ => 0 }]) }).collect())
}

