//! Shared by all drivers: runs histories (random or scripted) and writes what happened.
use crate::util;
use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

pub trait Suite {
    /// Execute one operation and return the event fields to merge into it.
    fn exec(&mut self, op: &J) -> J;
    /// Choose the next operation (None: end of this history).
    fn gen(&mut self, r: &mut util::Rng, step: usize) -> Option<J>;
    /// End of history: one last event (after all values are dropped), if any.
    fn finish(&mut self) -> Option<J> { None }
}

pub static TICK: AtomicU64 = AtomicU64::new(0);

struct Prog(std::fs::File);
impl Prog {
    fn put(&self, h: usize, op: &J) {
        use std::os::unix::fs::FileExt;
        let mut s = json!({"h": h, "op": op}).to_string();
        s.push('\n');
        let _ = self.0.write_all_at(s.as_bytes(), 0);
    }
}

fn merge(op: J, ev: J) -> J {
    let mut o = op;
    if let (Some(a), J::Object(b)) = (o.as_object_mut(), ev) { for (k, v) in b { a.insert(k, v); } }
    o
}

/// usage: bdh gen SUITE PROFILE SEED FIRST COUNT DEPTH OUT PROGRESS
///        bdh run SUITE PROFILE SCRIPTS FIRST COUNT OUT PROGRESS
/// Output: one line per history: {"h":index,"ev":[event...]}. The progress file names
/// the operation being executed, so that a crash or a hang is attributable.
pub fn run(make: fn(&str, &str) -> Box<dyn Suite>) {
    let a: Vec<String> = std::env::args().collect();
    let (mode, suite, prof) = (a[1].as_str(), a[2].as_str(), a[3].as_str());
    std::panic::set_hook(Box::new(|_| {}));
    // warm up the panic machinery so that its own allocations are not attributed to the library
    for _ in 0..3 { let _ = util::catch(|| { let v: Vec<u8> = vec![]; v[std::hint::black_box(3)] }); }
    let (scripts, seed, first, count, depth, out, prog): (Vec<J>, u64, usize, usize, usize, &str, &str) = if mode == "gen" {
        (vec![], a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap(), &a[8], &a[9])
    } else {
        let f = std::io::BufReader::new(std::fs::File::open(&a[4]).unwrap());
        let s: Vec<J> = f.lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
        let n = s.len();
        (s, 0, a[5].parse().unwrap(), n.min(a[6].parse().unwrap()), 0, &a[7], &a[8])
    };
    let limit: u64 = std::env::var("BDH_OP_TIMEOUT").ok().and_then(|x| x.parse().ok()).unwrap_or(10);
    std::thread::spawn(move || {
        let mut last = u64::MAX; let mut since = 0u64;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let t = TICK.load(Ordering::Relaxed);
            if t != last { last = t; since = 0; } else { since += 1; if since > limit * 2 { unsafe { libc_exit(77) } } }
        }
    });
    let prog = Prog(std::fs::File::create(prog).unwrap());
    let mut o = std::io::BufWriter::with_capacity(1 << 16, std::fs::File::create(out).unwrap());
    let stream = std::env::var("BDH_STREAM").is_ok();
    for h in first..first + count {
        if mode == "run" && h >= scripts.len() { break; }
        let mut s = make(suite, prof);
        let mut r = util::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(h as u64));
        let mut evs: Vec<J> = vec![];
        let mut i = 0;
        loop {
            let op = if mode == "gen" { if i >= depth { None } else { s.gen(&mut r, i) } } else { scripts[h]["ops"].get(i).cloned() };
            let Some(op) = op else { break };
            prog.put(h, &op);
            TICK.fetch_add(1, Ordering::Relaxed);
            let e = merge(op.clone(), s.exec(&op));
            if stream { writeln!(o, "{e}").unwrap(); o.flush().unwrap(); } else { evs.push(e); }
            i += 1;
        }
        prog.put(h, &json!({"op": "finish"}));
        TICK.fetch_add(1, Ordering::Relaxed);
        if let Some(e) = s.finish() { if stream { writeln!(o, "{e}").unwrap(); o.flush().unwrap(); } else { evs.push(e); } }
        drop(s);
        if !stream { writeln!(o, "{}", json!({"h": h, "ev": evs})).unwrap(); if h % 64 == 63 { o.flush().unwrap(); } }
    }
    o.flush().unwrap();
}
extern "C" { #[link_name = "_exit"] fn libc_exit(c: i32) -> !; }
