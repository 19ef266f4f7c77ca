"""Which specification modules decide which property, and how the library is driven for each."""
import os, re
SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
POOL = dict(suite="pool", module="PoolConf", bins=["dev"], depth=30)
def pool(prof, tags, n, **k): return dict(POOL, prof=prof, tags=set(tags) | {"crash"}, n=n, **k)
def queue(prof, tags, n, **k): return dict(dict(suite="queue", module="QueueConf", bins=["dev"], depth=30), prof=prof, tags=set(tags) | {"crash"}, n=n, **k)
def query(prof, tags, n, **k): return dict(dict(suite="query", module="QueryConf", bins=["dev"], depth=20), prof=prof, tags=set(tags) | {"crash"}, n=n, **k)
def intern(tags, n, **k): return dict(dict(suite="intern", module="InternConf", bins=["dev"], depth=30, prof="default"), tags=set(tags) | {"crash"}, n=n, **k)
def nqueue(prof, tags, n, **k): return dict(dict(suite="nqueue", module="QueueConf:Cap=23", bins=["noalloc"], depth=60), prof=prof, tags=set(tags) | {"crash"}, n=n, **k)
MC = {f: open(os.path.join(SPECDIR, f + ".cfg")).read() for f in [x[:-4] for x in os.listdir(SPECDIR) if x.endswith(".cfg")]}
def weak(module, inv, **consts):
    """A weakened variant of a model, which its invariant must reject."""
    c = MC[module]
    for k, v in consts.items(): c = re.sub(r"(?m)^(CONSTANT %s = ).*$" % k, r"\g<1>%s" % v, c)
    return dict(module=module, cfg=c, expect=inv, id="-".join("%s%s" % kv for kv in consts.items()))
def model(cfg, module=None, set=None, **k):
    c = MC[cfg]
    for a, b in (set or {}).items(): c = re.sub(r"(?m)^(CONSTANT %s = ).*$" % a, r"\g<1>%s" % b, c)
    return dict(dict(module=module or cfg, cfg=c, cfgname=cfg, id=cfg), **k)
def scripts(suite, prof, module, tags, ids, cap, **k): return dict(dict(suite=suite, module=module, bins=["dev"], depth=1, prof=prof, n=(0, 0), scripts=ids, script_cap=cap, regress=False, tags=set(tags) | {"crash"}), **k)
def nscripts(tags, ids, cap, **k): return scripts("nqueue", "default", "QueueConf:Cap=23", tags, ids, cap, bins=["noalloc"], **k)
def qscripts(tags, ids, cap, **k): return scripts("queue", "default", "QueueConf", tags, ids, cap, **k)
REPR1 = model("ReprOne", "ReprMC")
REPR = [REPR1, model("ReprMC", thorough={"Depth": "5", "NS": "2"}), model("ReprGen", "ReprMC"), model("ReprLend", "ReprMC")]
def rscripts(tags, cap, **k): return scripts("pool", "default", "PoolConf", tags, ["ReprOne", "ReprGen", "ReprLend"], cap, **k)
def qmodel(name, n): return model("Query" + name, "QueryMC", thorough={"MaxLen": str(n)})
def yscripts(tags, ids, **k): return scripts("query", "default", "QueryConf", tags, ids, 1500, **k)
COMMON_ASSUMPTIONS = [
    "x86-64, the pinned nightly toolchain and the locked dependency versions of this sandbox",
    "the driver reports arguments and results truthfully (it has no oracle and no knowledge of the expected outcome)",
    "TLC evaluates the TLA+ operators correctly",
]
PROPS = {
 "P01": dict(note='Random call histories on all representations, each call validated against the abstract pool specification (content and result of every touched value). Sampled, not exhaustive over histories.',
   models=REPR,
   conf=[rscripts({"content", "result"}, 5000), pool("default", {"content", "result"}, (3500, 40000), bins=["dev"]), pool("slice", {"content", "result"}, (1500, 20000), bins=["release"]), pool("big", {"content", "result"}, (50, 600), depth=20)]),
 "P02": dict(note="Slicing histories with valid, boundary, overflowing bounds on every sliceable type in builds with and without overflow checks; each outcome must be the specification's.",
   models=[model("SliceMC", thorough={"W": "14", "Lens": "{0, 1, 2, 3, 4, 5, 6}"}), weak("SliceMC", "Agrees", Checked="FALSE"), model("SliceGen", "SliceMC")],
   conf=[pool("slice", {"content", "result"}, (2500, 30000), bins=["dev", "release"]), scripts("pool", "default", "PoolConf", {"content", "result"}, ["SliceGen"], 4300, bins=["dev", "release"])]),
 "P03": dict(note='Allocator-observed histories: every block freed once, with its layout, not before the last value that lies in it and not after the last value that may keep it.',
   models=REPR,
   conf=[rscripts({"mem"}, 5000), pool("default", {"mem"}, (3000, 30000)), pool("ext", {"mem"}, (1500, 15000)), pool("build", {"mem"}, (1500, 15000), bins=["release"]), pool("big", {"mem"}, (60, 800), depth=20, bins=["release"]), queue("default", {"mem"}, (1500, 15000)), queue("mix", {"mem"}, (800, 8000)), query("find", {"mem"}, (300, 3000)), query("serde", {"mem"}, (300, 3000)), query("http", {"mem"}, (200, 2000)), query("nom", {"mem"}, (200, 2000)), query("arb", {"mem"}, (200, 2000)), query("cmp", {"mem"}, (100, 1000)), queue("long", {"mem"}, (300, 4000), depth=20), intern({"mem"}, (300, 3000)), pool("bytes", {"mem"}, (600, 6000), bins=["safe"])]),
 "P05": dict(note='Builder histories validated against the specification: content, capacity accounting, alignment, panics.',
   models=[model("BuilderMC", thorough={"Depth": "6"}), weak("BuilderMC", "Correct", Strict="FALSE"), model("BuilderGen", "BuilderMC"), model("BuilderText", "BuilderMC")],
   conf=[pool("build", {"content", "result", "builder"}, (3000, 40000), bins=["dev", "release"]), pool("big", {"content", "result", "builder"}, (70, 900), depth=20), scripts("pool", "default", "PoolConf", {"content", "result", "builder"}, ["BuilderGen", "BuilderText"], 4000)]),
 "P06": dict(note="Random histories of queue operations (several queues, up to and above the node capacity); content, results and bookkeeping of every queue validated after every call.",
   models=[model("LinkedMC", thorough={"MaxItems": "8", "MaxNodes": "5"}), model("LinkedGen", "LinkedMC", thorough={"MaxNodes": "4", "MaxItems": "50"}), model("RangeB", "ChunkedMC", thorough={"MaxLen": "7"})],
   conf=[qscripts({"content", "result", "acct"}, ["LinkedGen", "RangeB"], 400), queue("default", {"content", "result", "acct"}, (3000, 40000)), queue("mix", {"content", "result", "acct"}, (2000, 30000), bins=["release"]), queue("long", {"content", "result", "acct"}, (800, 10000), depth=20), queue("buf", {"content", "result", "acct"}, (600, 6000)), queue("io", {"content", "result", "acct"}, (600, 6000)), queue("scaled4096", {"content", "result", "acct"}, (300, 4000), depth=25), queue("scaled66000", {"content", "result", "acct"}, (80, 1000), depth=20)]),
 "P07": dict(note="Random histories of text queue operations over multi-byte text, positions inside characters included.",
   models=[model("RangeS", "ChunkedMC", thorough={"MaxLen": "4"})],
   conf=[qscripts({"content", "result", "acct", "utf8"}, ["RangeS"], 150), queue("text", {"content", "result", "acct", "utf8"}, (4000, 40000)), queue("longtext", {"content", "result", "acct", "utf8"}, (600, 8000), depth=20)]),
 "P08": dict(note="Iterator scripts mixing forward, backward, skipping and truncating steps over all chunkings; every step and every hint validated against the plain sequence.",
   models=[model("IterB", "ChunkedMC", thorough={"Depth": "3"}), model("IterS", "ChunkedMC", thorough={"MaxLen": "3"})],
   conf=[qscripts({"result", "content"}, ["IterB", "IterS"], 300), queue("iter", {"result", "content"}, (4000, 40000)), queue("text", {"result"}, (1000, 10000), bins=["release"]), query("find", {"result"}, (1000, 10000)), queue("longiter", {"content", "result"}, (400, 6000), depth=20), queue("search", {"result"}, (700, 7000)), queue("searcht", {"result"}, (400, 4000))]),
 "P09": dict(note="Searching and splitting over all chunkings of small-alphabet content, validated against the flat content; hangs are disagreements.",
   models=[qmodel("Find", 6), model("SearchB", "ChunkedMC", thorough={"MaxLen": "6"}), model("SearchS", "ChunkedMC", thorough={"MaxLen": "4"})],
   conf=[yscripts({"result"}, ["QueryFind"]), qscripts({"result", "content"}, ["SearchB", "SearchS"], 400), queue("search", {"result", "content"}, (4000, 40000)), queue("searcht", {"result", "content"}, (2000, 20000)), query("find", {"result"}, (1500, 15000)), pool("text", {"result", "content"}, (1500, 15000)), queue("longsearch", {"content", "result"}, (500, 6000), depth=20), queue("longsearcht", {"content", "result"}, (300, 4000), depth=20), queue("scaled4096", {"content", "result"}, (300, 4000), depth=25)],
   need=["take_line//ok", "trim//ok", "split_once//ok", "take_while//ok", "split/.*/ok"]),
 "P13": dict(note="I/O histories on values, queues and builders with every buffer size relation.",
   models=[model("IoB", "ChunkedMC", thorough={"MaxLen": "5"})],
   conf=[queue("io", {"result", "content"}, (4000, 40000)), pool("build", {"result", "content"}, (1000, 10000)), queue("longio", {"content", "result"}, (800, 10000), depth=20), pool("big", {"content", "result"}, (30, 400), depth=20), qscripts({"result", "content"}, ["IoB"], 300), queue("scaled4096", {"content", "result"}, (300, 4000), depth=25), queue("scaled66000", {"content", "result"}, (80, 1000), depth=20)]),
 "P11": dict(note='Histories over well-formed and ill-formed text; acceptance decided by the TLA+ definition of UTF-8.',
   models=[model("BuilderText", "BuilderMC")],
   conf=[pool("text", {"utf8", "content", "result"}, (3500, 40000)), scripts("pool", "default", "PoolConf", {"utf8", "content", "result"}, ["BuilderText"], 2000), queue("text", {"utf8", "result"}, (800, 8000)), queue("io", {"utf8", "content", "result"}, (600, 6000)), query("serde", {"result"}, (500, 5000)), query("arb", {"result"}, (300, 3000))]),
 "P14": dict(note='Histories over Buf/BufMut and conversions in both feature configurations, content and memory validated.',
   models=[model("ReprGen", "ReprMC", set={"First": '{"by"}'}), model("IoB", "ChunkedMC", set={"MaxLen": "3"}, thorough={"MaxLen": "4"})],
   conf=[scripts("pool", "default", "PoolConf", {"content", "result", "mem", "uniq"}, ["ReprGen"], 10000), pool("big", {"content", "result", "mem", "uniq"}, (60, 800), depth=20), pool("bytes", {"content", "result", "mem", "uniq"}, (3200, 30000), bins=["dev", "safe"]), queue("buf", {"content", "result", "mem"}, (2000, 20000)), queue("longbuf", {"content", "result", "mem"}, (600, 6000), depth=20), qscripts({"result", "content", "mem"}, ["IoB"], 150), queue("scaled4096", {"content", "result", "mem"}, (300, 4000), depth=25), queue("scaled66000", {"content", "result", "mem"}, (80, 1000), depth=20)]),
 "P19": dict(note='Histories with external owners and take-backs: owner dropped exactly once and never early, uniqueness only granted when nothing else sees the block.',
   models=[model("ReprMC"), model("ReprGen", "ReprMC", set={"First": '{"own", "vec40", "sb"}'})],
   conf=[scripts("pool", "default", "PoolConf", {"owner", "uniq", "content", "result"}, ["ReprGen"], 4000), pool("ext", {"owner", "uniq", "content", "result"}, (6000, 50000))]),
 "P10": dict(note="Pairs of contents in every pair of types, representations and chunkings; every comparison operator and hash validated against the contents' order.",
   models=[qmodel("Cmp", 3)],
   conf=[yscripts({"result"}, ["QueryCmp"]), query("cmp", {"result"}, (1200, 12000), bins=["dev", "release"])]),
 "P12": dict(note="Well-formed and ill-formed inputs around every limit of UTF-8, embedded in a larger buffer; every decoded item validated against the TLA+ definition of UTF-8.",
   models=[qmodel("U8", 2)],
   conf=[yscripts({"result"}, ["QueryU8"]), query("u8", {"result"}, (7000, 60000)), query("u8", {"result"}, (1500, 20000), bins=["release"])]),
 "P15": dict(note="Bodies of values and queues polled to the end and beyond, around the frame limit, in both interface versions.",
   models=[qmodel("Http", 3)],
   conf=[yscripts({"result"}, ["QueryHttp"]), query("http", {"result"}, (3000, 20000))]),
 "P17": dict(note="Every input trait method on all four types, over chunkings, predicates and needles, validated against the flat content.",
   models=[qmodel("Nom", 3)],
   conf=[yscripts({"result"}, ["QueryNom"]), query("nom", {"result"}, (9000, 60000))]),
 "P18": dict(note="Recording serializer and form-offering deserializer, plus JSON text, for every type, variant and form.",
   models=[qmodel("Serde", 3)],
   conf=[yscripts({"result"}, ["QuerySerde"]), query("serde", {"result"}, (7000, 50000))]),
 "P20": dict(note="Every generated type on random, constant, empty and exhausted entropy, twice with differently filled fresh memory.",
   models=[qmodel("Arb", 4)],
   conf=[yscripts({"result"}, ["QueryArb"]), query("arb", {"result"}, (8000, 50000))]),
 "P21": dict(note="Hex, debug, escaped and display renderings of every representation and chunking against the renderings specified on content.",
   models=[qmodel("Render", 2)],
   conf=[yscripts({"result"}, ["QueryRender"]), query("render", {"result"}, (8000, 50000))]),
 "P22": dict(note="Constant helpers, concatenation macros and inline chunks with in-range, boundary and out-of-range arguments.",
   models=[qmodel("Const", 4)],
   conf=[yscripts({"result"}, ["QueryConst"], bins=["dev", "release"]), query("const", {"result"}, (7000, 50000)), query("const", {"result"}, (1500, 15000), bins=["release"])]),
 "P16": dict(models=[model("InternMC", timeout=400), weak("InternMC", "Correct", Cas="FALSE", Gen="FALSE"), weak("InternMC", "Correct", Recheck="FALSE", Gen="FALSE"), weak("InternMC", "Correct", Share="FALSE", Gen="FALSE"), model("InternSeq", thorough={"Depth": "6"}), weak("InternSeq", "Correct", Own="FALSE"), model("InternGen", "InternSeq")],
   note="Histories over several interners sharing maps and the values they handed out, with concurrent phases on real threads (perturbed at allocations) whose call/return histories are checked for linearizability, per content, by TLC.",
   conf=[intern({"result", "content", "utf8", "mem"}, (1200, 15000)),
         dict(suite="iconc", module="InternConcConf", bins=["conc"], depth=1, prof="default", tags={"race", "uaf", "layout", "leak", "panic", "result", "crash"}, n=(100, 2000), batch=100),
         dict(suite="iconc", module="InternConcConf", bins=["conc"], depth=1, prof="default", tags={"race", "uaf", "layout", "leak", "panic", "result", "crash"}, n=(0, 0), batch=100, scripts=["InternMC"], script_cap=60, regress=False),
         scripts("intern", "default", "InternConf", {"result", "content", "utf8", "mem"}, ["InternGen"], 3000)], need=["conc//ok", "intern/always/ok", "intern/get/err"]),
 "P23": dict(note="Histories of the allocator-free configuration kept at and around the fixed capacity; content, bookkeeping, refusals and iteration validated after every call, in builds with and without overflow checks.",
   models=[model("RingMC"), model("RingGen", "RingMC"), model("RangeB", "ChunkedMC", set={"Alloc": "FALSE"}), model("SearchB", "ChunkedMC", set={"MaxLen": "3", "Alloc": "FALSE"}), model("IterB", "ChunkedMC", set={"MaxLen": "3", "Alloc": "FALSE"}), model("RangeS", "ChunkedMC", set={"MaxLen": "2", "Alloc": "FALSE"})],
   conf=[nscripts({"result", "content", "acct", "utf8"}, ["RingGen", "RangeB", "SearchB", "IterB", "RangeS"], 250), nqueue("default", {"result", "content", "acct", "utf8"}, (1600, 20000)), nqueue("text", {"result", "content", "acct", "utf8"}, (600, 8000), bins=["noalloc_rel"])],
   need=["push/[fb]/panic", "push/[fb]/ok", "extend/.*/panic", "full//ok"]),
 "P04": dict(note="Programs of handle operations on several threads, executed under enumerated schedules (fewest preemptions first) with every access of every block recorded by the compiler's thread instrumentation, and validated against a C11 happens-before model.",
   models=[dict(module="RefcountMC", id="refcount", timeout=300), weak("RefcountMC", "Safe", DropOrd=3), weak("RefcountMC", "Safe", DropOrd=2), weak("RefcountMC", "Safe", UniqOrd=0)],
   conf=[dict(suite="conc", module="RefcountConf", bins=["conc"], depth=1, prof="default", tags={"race", "uaf", "layout", "content", "uniq", "leak", "panic", "crash"}, n=(300, 6000), batch=300, scripts=["refcount"], script_cap=240)]),
}
