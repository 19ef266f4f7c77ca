-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* A pool of live values.  Each slot is empty or holds one value of an     *)
(* owning type of the library (or of a type it converts to):               *)
(*   bd byte value, sd text value, sb shared buffer, bb byte builder,      *)
(*   tb text builder, vec/str plain owned data, by/bm the bytes crate's    *)
(*   immutable/mutable buffers.                                            *)
(* A value's abstract state is its type and its bytes; builders also carry *)
(* the alignment they promise.  Exp gives the single outcome the library   *)
(* may have for an operation: the result, and the slots afterwards.        *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

NK == 6
No == [t |-> "no", b |-> <<>>, al |-> 1]
Mk(t, b) == [t |-> t, b |-> b, al |-> 1]
MkA(t, b, al) == [t |-> t, b |-> b, al |-> al]

Out(k, ns)     == [k |-> k, hv |-> FALSE, v |-> 0, ns |-> ns]
OutV(k, v, ns) == [k |-> k, hv |-> TRUE, v |-> v, ns |-> ns]

Pow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
HasF(e, f) == f \in DOMAIN e
CapLimit == 1000000000          \* above: stand-ins for 2^31, 2^32 and usize::MAX neighbourhoods
TooBig(n) == n >= 1499999980    \* >= 2^32 - 20: no room for the header

(* ---- constructors ---- *)
ConType(op) == CASE op = "c_bd" -> "bd" [] op = "c_ext" -> "bd" [] op = "c_sd" -> "sd" [] op = "c_sb" -> "sb"
                 [] op = "c_bb" -> "bb" [] op = "c_tb" -> "tb" [] op = "c_by" -> "by" [] op = "c_vec" -> "vec" [] OTHER -> "str"
ConPanics(e) ==
  \/ e.op = "c_bd" /\ e.how = "chunk" /\ Len(e.b) > 14
  \/ e.op = "c_sb" /\ e.how = "aligned" /\ ~ Pow2(e.al)
  \/ e.op = "c_bb" /\ HasF(e, "al") /\ (~ Pow2(e.al) \/ e.al > 512)
  \/ e.op \in {"c_bb", "c_tb"} /\ HasF(e, "cap") /\ TooBig(e.cap)
ConExp(S, e) ==
  IF ConPanics(e) THEN Out("panic", S)
  ELSE LET al == IF HasF(e, "al") THEN e.al ELSE 1
           c  == IF HasF(e, "parts") THEN Cat(e.parts) ELSE e.b
       IN Out("ok", [S EXCEPT ![e.d] = MkA(ConType(e.op), c, al)])

(* ---- conversions: consume the slot, produce a value of another type ---- *)
ToType(t, to) ==
  CASE to = "shared" -> t [] to = "static" -> t
    [] to = "sd2" -> "sd" [] to = "bd2" -> "bd" [] to = "sb2" -> "sb" [] to = "bb2" -> "bb"
    [] to = "trymut" -> "bm" [] to = "ext" -> "bd" [] OTHER -> to
ConvExp(S, e, obs) ==
  LET s == e.s  x == S[s]  tt == ToType(x.t, e.to)
      put(v) == [S EXCEPT ![s] = v]
      \* an empty shared buffer has no storage and so no alignment to carry over
      keepal == /\ x.t \in {"sb", "bb", "tb"} /\ tt \in {"sb", "bb", "tb"}
                /\ ("sb" \in {x.t, tt} => x.b # <<>>)
      res == MkA(tt, x.b, IF keepal THEN x.al ELSE 1)
  IN CASE e.to \in {"sd", "sd2"} /\ x.t \in {"bd", "sb"} ->
            IF Valid8(x.b) THEN Out("ok", put(res)) ELSE Out("err", S)
       [] e.to = "tb" /\ x.t = "bb" ->
            IF Valid8(x.b) THEN Out("ok", put(res)) ELSE Out("err", put(No))
       [] e.to = "cow" -> \* borrowed content stays a value, owned content becomes a plain vector/string
            Out("ok", put(Mk(obs, x.b)))
       [] e.to = "trymut" -> \* in place only when unique: decided by UniqOk below
            Out("either", put(Mk(obs, x.b)))
       [] OTHER -> Out("ok", put(res))

(* ---- slicing ---- *)
SlcExp(S, e) ==
  LET s == e.s  x == S[s]  n == Len(x.b)
      ol  == HasF(e, "off")
      lo  == IF ol THEN e.off ELSE RLo(e.rg)
      hi  == IF ol THEN (IF e.off <= n /\ e.len <= n THEN e.off + e.len ELSE n + 1) ELSE RHi(e.rg, n)
      inr == lo <= hi /\ hi <= n
      okk == inr /\ (x.t = "sd" => Boundary(x.b, lo) /\ Boundary(x.b, hi))
      part == Sub(x.b, lo, hi)
      v == MkA(x.t, part, IF lo = 0 THEN x.al ELSE 1)
      con == e.fn \in {"into", "into_shared", "into_ol"}
  IN IF ~ okk THEN Out("panic", IF con THEN [S EXCEPT ![s] = No] ELSE S)
     ELSE IF con \/ e.fn \in {"make", "make_ol"} THEN Out("ok", [S EXCEPT ![s] = v])
     ELSE Out("ok", [S EXCEPT ![e.d] = v])

(* cut the slot at position p: the front goes to slot e.d (as type t), the rest stays *)
CutF(S, e, p, t) ==
  LET x == S[e.s] IN [S EXCEPT ![e.s] = Mk(x.t, From(x.b, p)), ![e.d] = Mk(t, To(x.b, p))]
CutB(S, e, p) ==
  LET x == S[e.s] IN [S EXCEPT ![e.s] = Mk(x.t, To(x.b, p)), ![e.d] = Mk(x.t, From(x.b, p))]
SetB(S, s, b) == [S EXCEPT ![s] = MkA(S[s].t, b, S[s].al)]
SetCut(S, s, b) == [S EXCEPT ![s] = Mk(S[s].t, b)]

(* ---- builders ---- *)
PushExp(S, e, obsv) ==
  LET s == e.s  x == S[s]
      all == IF HasF(e, "parts") THEN Cat(e.parts) ELSE e.b
      filled == SetB(S, s, x.b \o To(e.b, obsv))
  IN IF x.t = "tb" THEN Out("ok", SetB(S, s, x.b \o all))
     ELSE CASE e.how \in {"chunk", "unfilled", "async", "bbuf"} -> \* fills what fits: reported by the call
                 Out("filled", filled)
            [] e.how = "overfill" -> Out("panic", S)
            [] OTHER -> Out("ok", SetB(S, s, x.b \o all))

Exp(S, e, obst, obsv) ==
  LET x == IF HasF(e, "s") THEN S[e.s] ELSE No
      n == Len(x.b)
  IN
  CASE e.op \in {"c_bd", "c_ext", "c_sd", "c_sb", "c_bb", "c_tb", "c_by", "c_vec", "c_str"} -> ConExp(S, e)
    [] e.op = "conv"  -> ConvExp(S, e, obst)
    [] e.op = "slc"   -> SlcExp(S, e)
    [] e.op = "drop"  -> Out("ok", [S EXCEPT ![e.s] = No])
    [] e.op = "clone" -> Out("ok", [S EXCEPT ![e.d] = x])
    [] e.op = "take_bytes" -> IF e.m <= n THEN Out("ok", CutF(S, e, e.m, x.t)) ELSE Out("panic", S)
    [] e.op = "copy_to_bytes" -> IF e.m <= n THEN Out("ok", CutF(S, e, e.m, "by")) ELSE Out("panic", S)
    [] e.op = "split_to"  -> Out("ok", CutF(S, e, e.m, x.t))
    [] e.op = "split_off" -> Out("ok", CutB(S, e, e.m))
    [] e.op = "take_while" ->
         LET p == IF x.t = "sd" THEN FirstCharFrom(x.b, LAMBDA c : c >= e.m, 0) ELSE FirstFrom(x.b, LAMBDA c : c >= e.m, 0)
         IN Out("ok", CutF(S, e, IF p < 0 THEN n ELSE p, x.t))
    [] e.op = "take_line" ->
         LET p == FirstFrom(x.b, LAMBDA c : c = 10, 0) IN Out("ok", CutF(S, e, IF p < 0 THEN n ELSE p + 1, "sd"))
    [] e.op = "trim" ->
         Out("ok", [S EXCEPT ![e.d] = Mk("sd", CASE e.m = 0 -> TrimR(TrimL(x.b)) [] e.m = 1 -> TrimL(x.b) [] OTHER -> TrimR(x.b))])
    [] e.op = "split_at" ->
         IF e.m <= n /\ (x.t = "sd" => Boundary(x.b, e.m)) THEN Out("ok", CutF(S, e, e.m, x.t))
         ELSE Out("panic", [S EXCEPT ![e.s] = No])
    [] e.op = "split_once" ->
         LET p == Find(x.b, e.b) IN IF p < 0 THEN Out("none", S) ELSE Out("ok", CutF(S, e, p, x.t))
    [] e.op = "idx"  -> IF e.m < n THEN OutV("ok", At(x.b, e.m), S) ELSE Out("panic", S)
    [] e.op = "ixr"  ->
         LET lo == IF e.fn \in {"to", "full"} THEN 0 ELSE e.off  hi == IF e.fn \in {"from", "full"} THEN n ELSE e.len
         IN IF lo <= hi /\ hi <= n THEN OutV("ok", Sub(x.b, lo, hi), S) ELSE Out("panic", S)
    [] e.op = "next" ->
         IF n = 0 THEN Out("none", S)
         ELSE IF x.t = "sd" THEN OutV("ok", CVal(x.b, 0), SetCut(S, e.s, From(x.b, CLen(x.b, 0))))
         ELSE OutV("ok", x.b[1], SetCut(S, e.s, From(x.b, 1)))
    [] e.op = "uniq"   -> Out("uniq", S)
    [] e.op = "borrow" -> Out("borrow", S)
    [] e.op = "advance" -> IF e.m <= n THEN Out("ok", SetCut(S, e.s, From(x.b, e.m))) ELSE Out("panic", S)
    [] e.op = "truncate" -> Out("ok", SetCut(S, e.s, To(x.b, Min2(e.m, n))))
    [] e.op = "views"  -> Out("views", S)      \* every way to look at the bytes shows the same bytes
    [] e.op = "buf"    -> OutV("ok", <<n, n, n > 0>>, S)
    [] e.op = "get_u8" -> IF n >= 1 THEN OutV("ok", x.b[1], SetCut(S, e.s, From(x.b, 1))) ELSE Out("panic", S)
    [] e.op = "copy_to_slice" -> IF e.m <= n THEN OutV("ok", To(x.b, e.m), SetCut(S, e.s, From(x.b, e.m))) ELSE Out("panic", S)
    [] e.op = "push"   -> PushExp(S, e, obsv)
    [] e.op = "reserve" -> IF TooBig(e.m) THEN Out("panic", S) ELSE Out("ok", S)
    [] e.op = "clear"  -> Out("ok", SetB(S, e.s, <<>>))
    [] e.op = "trunc"  ->
         IF e.m >= n THEN Out("ok", S)
         ELSE IF x.t = "tb" /\ ~ Boundary(x.b, e.m) THEN Out("panic", S)
         ELSE Out("ok", SetB(S, e.s, To(x.b, e.m)))
    [] e.op = "setb"   -> IF e.m < n THEN Out("ok", SetB(S, e.s, [x.b EXCEPT ![e.m + 1] = e.b[1]])) ELSE Out("panic", S)
    [] e.op = "remmut" -> Out("remmut", S)
    [] e.op = "expire" -> Out("expire", S)     \* a lender reuses storage that no value may look at any more
    [] e.op = "finish" -> Out("ok", [i \in 1..NK |-> No])
    [] OTHER -> Out("badop", S)
=============================================================================
