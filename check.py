#!/usr/bin/env python3
"""Runs one property's check: model checking of the specification, generation of
behaviours from it, execution of the real library, validation of the recorded
histories by TLC.   check.py PID | check.py setup | check.py replay FILE

The Rust driver contains no oracle: it executes calls and records what happened.
Every verdict is TLC evaluating the TLA+ specification on the recorded history."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
BUILD = os.path.join(V, ".build")
SPEC = os.path.join(V, "spec")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = min(8, os.cpu_count() or 4)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="nightly-2025-03-06", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"): ENV.pop(k, None)

class ToolError(Exception): pass
def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------ building
def build(kind):
    """kind: dev, release, safe (dev + bytes_1_safe), or a named extra crate"""
    crate, args, sub, binname, extra = {
        "dev": ("harness", [], "debug", "bdh", {}),
        "release": ("harness", ["--release"], "release", "bdh", {}),
        "safe": ("harness", ["--features", "safe"], "debug", "bdh", {}),
        "noalloc": ("harness_noalloc", [], "debug", "bdn", {}),
        "noalloc_rel": ("harness_noalloc", ["--release"], "release", "bdn", {}),
        "conc": ("harness_conc", ["--target", "x86_64-unknown-linux-gnu"], "x86_64-unknown-linux-gnu/debug", "bdc", {"RUSTFLAGS": "-Zsanitizer=thread -Zexternal-clangrt"}),
    }[kind]
    tgt = os.path.join(BUILD, "t_" + ("safe" if kind == "safe" else crate))
    cmd = ["cargo", "build", "--offline", "--quiet"] + args
    env = dict(ENV, CARGO_TARGET_DIR=tgt, **extra)
    p = subprocess.run(cmd, cwd=os.path.join(V, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise ToolError("build of %s failed\n%s" % (kind, p.stdout[-4000:]))
    return os.path.join(tgt, sub, binname)

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, work, env=None, workers=NCPU, timeout=800, heap="6g", extra=()):
    os.makedirs(work, exist_ok=True)
    cfgf = os.path.join(work, module + ".cfg")
    open(cfgf, "w").write(cfg)
    meta = os.path.join(work, "meta"); shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfgf, *extra, os.path.join(SPEC, module + ".tla")]
    out = os.path.join(work, "tlc.out")
    with open(out, "w") as f:
        try: subprocess.run(cmd, cwd=work, env=dict(ENV, **(env or {})), stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired: raise ToolError("TLC timed out on %s" % module)
    shutil.rmtree(meta, ignore_errors=True)
    return open(out, errors="replace").read()
def stats(o):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    if not m: return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

def cfg_file(name): return open(os.path.join(SPEC, name + ".cfg")).read()

def run_model(m, work, workers):
    """Exhaustive model checking of one specification configuration; returns its generated scripts."""
    name, cfg = m["module"], m.get("cfg") or cfg_file(m.get("cfgname", m["module"]))
    if TIER == "thorough" and m.get("thorough"):
        for a, b in m["thorough"].items(): cfg = re.sub(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % a, r"\g<1>%s" % b, cfg)
    o = tlc(name, cfg, os.path.join(work, "model_%s_%s" % (m.get("cfgname", name), m.get("id", ""))), timeout=m.get("timeout", 400 if TIER == "quick" else 3000), extra=m.get("extra", ()), workers=workers)
    if m.get("expect"):            # a configuration the specification must reject (its invariants are not vacuous)
        if "Invariant %s is violated" % m["expect"] not in o: raise ToolError("model %s did not reject %s" % (name, m["cfg"]))
        return dict(module=name + " (rejected)", states=0, transitions=0, scripts=[])
    if "No error has been found" not in o:
        raise ToolError("model %s: %s" % (name, o[-3000:]))
    g, d = stats(o)
    if d < 2: raise ToolError("model %s explored nothing" % name)
    scripts = list(dict.fromkeys(l for l in o.splitlines() if l.startswith('<<"S", ')))
    return dict(module=name, states=d, transitions=g, scripts=scripts)

def parse_script(l): return json.loads(json.loads(l[7:-2]))

# ------------------------------------------------------------------ running the library
def drive(binp, args, first, count, out, prog, env, crash_cap=12):
    """Run the driver over a range of histories; a crash or hang becomes part of the history."""
    parts, h, end, crashes = [], first, first + count, 0
    # a library that allocates without end must fail in its own process, not take the machine down (normal use is
    # 140 MB; the thread instrumentation of "conc" reserves address space, so it has no limit)
    cmd = [binp] if "x86_64" in binp else ["/bin/sh", "-c", 'ulimit -v 2500000; exec "$@"', "sh", binp]
    while h < end:
        part = out + ".%d" % len(parts)
        p = subprocess.run(cmd + args(h, end - h, part, prog), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        lines = [l for l in open(part, errors="replace").read().split("\n") if l.startswith('{"')] if os.path.exists(part) else []
        good = []
        for l in lines:
            try: good.append(json.loads(l))
            except ValueError: pass
        parts.append(good)
        if p.returncode == 0: break
        try: hc = json.loads(open(prog).readline())["h"]
        except Exception: raise ToolError("driver failed (%s) without progress: %s" % (p.returncode, args(h, 1, part, prog)))
        good[:] = [g for g in good if g["h"] < hc]
        done = {g["h"] for g in good}
        missing = [k for k in range(h, hc) if k not in done]
        for k in missing:      # completed, but its buffered line was lost with the process
            subprocess.run(cmd + args(k, 1, part, prog + "x"), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for l in open(part, errors="replace").read().split("\n"):
                if l.startswith('{"'):
                    try: good.append(json.loads(l))
                    except ValueError: pass
        p2 = subprocess.run(cmd + args(hc, 1, part, prog), env=dict(env, BDH_STREAM="1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        evs = []
        for l in open(part, errors="replace").read().split("\n"):
            try: evs.append(json.loads(l))
            except ValueError: break
        if p2.returncode:
            op = json.loads(open(prog).readline())["op"]
            op["r"] = {"k": "hang" if p2.returncode == 77 else "crash"}; op["x"] = True
            evs.append(op)
        good.append({"h": hc, "ev": evs})
        crashes += 1
        if crashes >= crash_cap: break
        h = hc + 1
    for f in os.listdir(os.path.dirname(out)):
        if f.startswith(os.path.basename(out) + "."): os.unlink(os.path.join(os.path.dirname(out), f))
    return [g for part in parts for g in part]

def execute(binp, suite, prof, work, gen=None, scripts=None):
    """gen=(seed,count,depth) or scripts=[ops...]; returns the recorded histories."""
    os.makedirs(work, exist_ok=True)
    env = dict(ENV, BDH_OP_TIMEOUT="6")
    if gen:
        seed, count, depth = gen
        mk = lambda h, c, o, p: ["gen", suite, prof, str(seed), str(h), str(c), str(depth), o, p]
    else:
        sf = os.path.join(work, "scripts.ndjson")
        with open(sf, "w") as f:
            for s in scripts: f.write(json.dumps(s if isinstance(s, dict) else {"ops": s}) + "\n")
        count = len(scripts)
        mk = lambda h, c, o, p: ["run", suite, prof, sf, str(h), str(c), o, p]
    if count == 0: return []
    step = max(1, (count + NCPU - 1) // NCPU)
    hs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = [ex.submit(drive, binp, mk, a, min(step, count - a), os.path.join(work, "o%d" % a), os.path.join(work, "p%d" % a), env) for a in range(0, count, step)]
        for f in fs: hs += f.result()
    return hs

# ------------------------------------------------------------------ validation
def conf_cfg(module, tags, inv):
    # a module name may carry a constant: "QueueConf:Cap=23"
    const = {"QueueConf": {"Cap": "0"}}.get(module.split(":")[0], {}) | dict(c.split("=") for c in module.split(":")[1:])
    return "".join("CONSTANT %s = %s\n" % kv for kv in const.items()) + "SPECIFICATION Spec\nINVARIANT %s\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANT Relevant = {%s}\n" % (inv, ", ".join('"%s"' % t for t in sorted(tags)))

def validate(module, hists, tags, work, timeout=450):
    """TLC over all recorded histories; returns disagreements [(index, event, tags)]."""
    os.makedirs(work, exist_ok=True)
    bad, g, d = [], 0, 0
    B, cur, size, batches = 40_000_000, [], 0, []
    for k, h in enumerate(hists):
        l = json.dumps(h, separators=(",", ":"))
        if cur and size + len(l) > B: batches.append(cur); cur, size = [], 0
        cur.append((k, l)); size += len(l)
    if cur: batches.append(cur)
    for b in batches:
        tf = os.path.join(work, "trace.ndjson")
        with open(tf, "w") as f:
            for _, l in b: f.write(l + "\n")
        o = tlc(module.split(":")[0], conf_cfg(module, tags, "Report"), work, env={"TRACE": tf}, timeout=timeout, heap="10g")
        if "No error has been found" not in o:
            off = undescribed(module, [hists[k] for k, _ in b], tags, work)
            if not off: raise ToolError("TLC could not evaluate %s on the recorded histories (%s)\n%s" % (module, tf, o[-3500:]))
            bad.append((b[off[0]][0], off[1], ["undescribed"])); continue
        x, y = stats(o); g += x; d += y
        # every history must have been followed to its end, or to a disagreement
        nbad = {}
        for m in re.finditer(r'<<"BAD", (\d+), (\d+), \{(.*?)\}>>', o):
            bad.append((b[int(m[1]) - 1][0], int(m[2]) - 1, sorted(t.strip(' "') for t in m[3].split(","))))
    return bad, g, d

def undescribed(module, hs, tags, work):
    """The first history, and the event in it, that lies outside the specification's domain: a result of a shape that
    no outcome of the specification has (TLC stops with a type error there, instead of comparing the two)."""
    def fails(part):
        tf = os.path.join(work, "part.ndjson")
        with open(tf, "w") as f:
            for h in part: f.write(json.dumps(h, separators=(",", ":")) + "\n")
        o = tlc(module.split(":")[0], conf_cfg(module, tags, "Report"), os.path.join(work, "part"), env={"TRACE": tf}, timeout=300, heap="10g")
        return "No error has been found" not in o and ("evaluating" in o or "attempted to" in o.lower() or "In applying" in o)
    if not fails(hs): return None
    lo, n = 0, len(hs)
    while n > 1:
        half = n // 2
        if fails(hs[lo:lo + half]): n = half
        else: lo, n = lo + half, n - half
    h = hs[lo]; a, z = 0, len(h["ev"])          # the shortest prefix that fails
    while z - a > 1:
        m = (a + z) // 2
        if fails([dict(h, ev=h["ev"][:m])]): z = m
        else: a = m
    return (lo, z - 1) if fails([dict(h, ev=h["ev"][:z])]) else None

def counterexample(module, hist, tags, work):
    os.makedirs(work, exist_ok=True)
    tf = os.path.join(work, "trace.ndjson")
    open(tf, "w").write(json.dumps(hist) + "\n")
    o = tlc(module.split(":")[0], conf_cfg(module, tags, "Conforms"), work, env={"TRACE": tf}, workers=1)
    return o

ARGKEYS_OUT = {"r", "runs", "ch", "ma", "mf", "mb", "dr", "x"}
def signature(e):
    """What identifies a failing call: the operation, its variant and the kind of outcome."""
    v = next((str(e[k]) for k in ("how", "fn", "to") if k in e), "")
    r = e.get("r"); k = r.get("k", "") if isinstance(r, dict) else ""
    return "%s/%s/%s" % (e.get("op", ""), v, k)

def known_findings(pid):
    f = os.path.join(V, "known_findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid]
def is_known(k, suite, e, tags):
    m = k["match"]
    if m.get("suite") not in (None, suite) or m.get("signature") not in (None, signature(e)): return False
    return all(e.get(a) == b for a, b in m.get("args", {}).items())

def ops_of(hist):
    return [{k: v for k, v in e.items() if k not in ARGKEYS_OUT} for e in hist["ev"] if e.get("op") != "finish"]

# ------------------------------------------------------------------ a check
def run_check(pid):
    import props
    P = props.PROPS[pid]
    t0 = time.time()
    work = os.path.join(BUILD, "w_" + pid)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    thorough = TIER == "thorough"
    kinds = []
    for c in P["conf"]:
        for b in c["bins"]:
            if b not in kinds: kinds.append(b)
    with cf.ThreadPoolExecutor(3) as ex: bins = dict(zip(kinds, ex.map(build, kinds)))
    models, scripts = [], {}
    ms = [m for m in P.get("models", []) if m.get("only") in (None, "thorough" if thorough else "quick")]
    with cf.ThreadPoolExecutor(3) as ex: rs = list(ex.map(lambda m: run_model(m, work, 1 + NCPU // 3), ms)) if len(ms) > 1 else [run_model(m, work, NCPU) for m in ms]
    for m, r in zip(ms, rs):
        models.append(r)
        if r["scripts"]: scripts.setdefault(m.get("id", m["module"]), []).extend(r["scripts"])
        log("model %-14s %8d distinct states %9d transitions %6d behaviours (%.0fs)" % (r["module"], r["states"], r["transitions"], len(r["scripts"]), time.time() - t0))
    cov = dict(states=sum(m["states"] for m in models), transitions=sum(m["transitions"] for m in models),
               traces_validated_against_impl=0, spec_behaviours_replayed=0, impl_events_validated=0, trace_states=0,
               models=[{k: m[k] for k in ("module", "states", "transitions")} | {"behaviours": len(m["scripts"])} for m in models], runs=[], samples=[])
    ops, violations, known = {}, [], set()
    deadline = t0 + (600 if not thorough else 5400)
    ident = set()
    for ci, c in enumerate(P["conf"]):
        for b in c["bins"]:
            jobs = []
            for sid in c.get("scripts", []):
                sc = scripts[sid]
                cap = c.get("script_cap", 6000) * (1 if not thorough else 8)
                if len(sc) > cap:
                    sc = sorted(sc, key=lambda s: hashlib.md5((s + str(SEED)).encode()).digest())[:cap]
                jobs.append(("spec:" + sid, None, [parse_script(l) for l in sc]))
            rs = os.path.join(V, "regress", c["suite"] + ".ndjson")
            if os.path.exists(rs) and c.get('regress', True):
                sc = [json.loads(l) for l in open(rs) if l.strip()]
                sc = [s for s in sc if "profs" not in s or c["prof"] in s["profs"]]
                if sc: jobs.append(("regress", None, sc))
            n = int(c["n"][1 if thorough else 0] * float(os.environ.get("BD_SCALE", "1")))   # BD_SCALE: development only
            if n:
                per = c.get("batch", 8000)
                for k in range(0, n, per): jobs.append(("random", (SEED * 7919 + ci * 101 + k, min(per, n - k), c.get("depth", 30)), None))
            for what, gen, sc in jobs:
                if time.time() > deadline: log("stopping: time budget of this tier used up"); break
                w = os.path.join(work, "c%d_%s" % (ci, b))
                hs = execute(bins[b], c["suite"], c["prof"], w, gen, sc)
                nev = sum(len(h["ev"]) for h in hs)
                if not hs: raise ToolError("the driver recorded nothing for %s" % c["suite"])
                try: bad, g, d = validate(c["module"], hs, c["tags"], w)
                except ToolError as x:
                    if not violations: raise
                    log("not validated (%s), but violations were found before" % str(x).split("\n")[0]); continue
                for h in hs:
                    for e in h["ev"]: s = signature(e); ops[s] = ops.get(s, 0) + 1
                    ident.add(hashlib.md5(json.dumps(h["ev"], sort_keys=True).encode()).digest()[:10])
                cov["traces_validated_against_impl"] += len(hs); cov["impl_events_validated"] += nev; cov["trace_states"] += d
                if what.startswith("spec"): cov["spec_behaviours_replayed"] += len(hs)
                cov["runs"].append(dict(suite=c["suite"], profile=c["prof"], build=b, source=what, histories=len(hs), events=nev))
                if len(cov["samples"]) < 3:
                    s = hs[len(hs) // 2]; cov["samples"].append({"suite": c["suite"], "source": what, "ops": ops_of(s)[:6]})
                nb = 0
                for (k, i, tags) in bad:
                    e = hs[k]["ev"][i]
                    kf = [f for f in known_findings(pid) if is_known(f, c["suite"], e, tags)]
                    if kf: known.add((kf[0]["id"], kf[0]["what"])); continue
                    violations.append((c, b, hs[k], i, tags)); nb += 1
                log("%-8s %-9s %-8s %-14s %6d histories %8d events  %d disagreements (%.0fs)" % (c["suite"], c["prof"], b, what, len(hs), nev, nb, time.time() - t0))
                shutil.rmtree(w, ignore_errors=True)
                if len(violations) > 200: break
    # vacuity: the operations this check is about must have been exercised
    for need in P.get("need", []):
        if not violations and not any(re.fullmatch(need, s) for s in ops): raise ToolError("operation never exercised: " + need)
    cov["distinct_histories"] = len(ident)
    cov["operation_outcomes"] = len(ops)
    cov["outcome_counts"] = dict(sorted(ops.items(), key=lambda x: -x[1])[:120])
    cov["rule"] = P.get("rule", "a history is a sequence of public calls executed on the real library and validated call by call against the specification; distinct by content")
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking", coverage=cov,
              assumptions=P.get("assumptions", []) + props.COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(violations))
    rc = 0
    for (fid, what) in sorted(known): log("KNOWN-FINDING: property=%s %s %s" % (pid, fid, what))
    if violations:
        rc = 1
        rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
        seen = {}
        for v in sorted(violations, key=lambda v: (v[3], len(json.dumps(v[2])))): seen.setdefault((v[0]["suite"], signature(v[2]["ev"][v[3]]), tuple(v[4])), []).append(v)
        first = None
        for n, (key, vs) in enumerate(list(seen.items())[:12]):
            c, b, h, i, tags = vs[0]
            f = os.path.join(rd, "%s-%d.json" % (pid, n))
            json.dump(dict(property=pid, suite=c["suite"], profile=c["prof"], build=b, module=c["module"], tags=sorted(c["tags"]), disagreement=tags,
                           at_event=i + 1, script=dict(ops=ops_of(h)), recorded=dict(h=1, ev=h["ev"][:i + 1])), open(f, "w"), indent=1)
            log("  %d x %s %s -> %s" % (len(vs), key[1], ",".join(key[2]), f))
            first = first or (f, c, h)
        try: open(first[0][:-5] + ".txt", "w").write(counterexample(first[1]["module"], first[2], first[1]["tags"], os.path.join(work, "cx")))
        except ToolError: pass
        log("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(first[0], V)))
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    log("%s %s: %d states model-checked, %d histories / %d events of the library validated, %d violations, %.0fs" % (pid, TIER, cov["states"], cov["traces_validated_against_impl"], cov["impl_events_validated"], len(violations), time.time() - t0))
    return rc

def replay(f):
    r = json.load(open(f))
    work = os.path.join(BUILD, "w_replay"); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    hs = execute(build(r["build"]), r["suite"], r["profile"], work, None, [r["script"]])
    o = counterexample(r["module"], hs[0], r["tags"], work)
    print(o)
    if "Invariant Conforms is violated" in o: log("VIOLATION property=%s replay=%s" % (r["property"], f)); return 1
    return 0

if __name__ == "__main__":
    try:
        a = sys.argv[1]
        if a == "setup":
            import props
            ks = sorted({b for P in props.PROPS.values() for c in P["conf"] for b in c["bins"]})
            for k in ks: build(k)
            sys.exit(0)
        sys.exit(replay(sys.argv[2]) if a == "replay" else run_check(a))
    except ToolError as e:
        log("CHECK ERROR: %s" % e); sys.exit(2)
