------------------------------- MODULE SliceMC -------------------------------
(***************************************************************************)
(* Ranges of machine words.  A range is resolved the way machine code has  *)
(* to do it: bounds are words below W, exclusive starts and inclusive ends *)
(* are one addition away from the offsets they mean, and offset-and-length *)
(* calls add two words.  With every addition checked the outcome is, for   *)
(* every range over words and every content, what Pool states over the     *)
(* natural numbers; with wrapping additions (Checked = FALSE) it is not.   *)
(* With Gen, every case becomes calls on every representation.             *)
(***************************************************************************)
EXTENDS Pool, TLC, Json
CONSTANTS W, Lens, Checked, Gen, Types
VARIABLES c, out                         \* the case looked at and what the machine did with it
vars == <<c, out>>
Words(n) == (0..Min2(n + 1, W - 3)) \cup {W - 2, W - 1}
Bnds(n) == {<<k, v>> : k \in {"i", "x"}, v \in Words(n)} \cup {<<"u", 0>>}
Ranges(n) == [s : Bnds(n), e : Bnds(n)]
(* ---- the machine ---- *)
Bad == -1
Add(a, b) == IF a = Bad \/ b = Bad THEN Bad ELSE IF a + b < W THEN a + b ELSE IF Checked THEN Bad ELSE a + b - W
Low(g) == IF g.s[1] = "u" THEN 0 ELSE IF g.s[1] = "i" THEN g.s[2] ELSE Add(g.s[2], 1)
High(g, n) == IF g.e[1] = "u" THEN n ELSE IF g.e[1] = "x" THEN g.e[2] ELSE Add(g.e[2], 1)
Cutout(b, lo, hi) == IF lo = Bad \/ hi = Bad \/ lo > hi \/ hi > Len(b) THEN <<"panic">> ELSE <<"ok", [i \in 1..(hi - lo) |-> b[lo + i]]>>
(* ---- scripts: words near W stand for words near the largest machine word ---- *)
Num(v) == IF v >= W - 2 THEN 2000000000 - (W - 1 - v) ELSE v
Big(g) == [s |-> <<g.s[1], Num(g.s[2])>>, e |-> <<g.e[1], Num(g.e[2])>>]
Text(n) == CASE n = 0 -> <<>> [] n = 1 -> <<97>> [] n = 2 -> <<195, 169>> [] n = 3 -> <<97, 195, 169>> [] n = 4 -> <<195, 169, 98, 99>>
             [] OTHER -> [i \in 1..(n - 3) |-> 96 + (i % 26)] \o <<226, 152, 131>>
Byte(n) == [i \in 1..n |-> 200 + (i % 50)]
Content(t, n) == IF t = "sd" THEN Text(n) ELSE Byte(n)

Ops(n) == [f : {"range"}, g : Ranges(n)] \cup [f : {"ol"}, a : Words(n), l : Words(n)]
Spec0(b, t, o) == Exp([k \in 1..NK |-> IF k = 1 THEN Mk(t, b) ELSE No],
                      IF o.f = "range" THEN [op |-> "slc", fn |-> "sliced", s |-> 1, d |-> 2, rg |-> Big(o.g)]
                      ELSE [op |-> "slc", fn |-> "sliced_ol", s |-> 1, d |-> 2, off |-> Num(o.a), len |-> Num(o.l)], "", 0)
Machine(b, o) == IF o.f = "range" THEN Cutout(b, Low(o.g), High(o.g, Len(b)))
                 ELSE Cutout(b, o.a, Add(o.a, o.l))
Init == c = [n |-> 0, t |-> "none", o |-> [f |-> "none"]] /\ out = <<>>
Next == /\ c.t = "none"
        /\ \E n \in Lens : \E t \in {"bd", "sd"} \cap Types : \E o \in Ops(n) :
             c' = [n |-> n, t |-> t, o |-> o] /\ out' = Machine(Content(t, n), o)
Spec == Init /\ [][Next]_vars
Agrees == c.t # "none" =>
   LET b == Content(c.t, c.n)
       x == Spec0(b, c.t, c.o)
       inside == c.t = "sd" /\ out[1] = "ok" /\ x.k = "panic"      \* the machine has not looked at character boundaries yet
       lo == IF c.o.f = "range" THEN Low(c.o.g) ELSE c.o.a
   IN IF inside THEN ~ (Boundary(b, lo) /\ Boundary(b, lo + Len(out[2])))
      ELSE /\ out[1] = x.k
           /\ x.k = "ok" => x.ns[2].b = out[2] /\ x.ns[1].b = b
           /\ x.k = "panic" => x.ns[1].b = b /\ x.ns[2] = No

(* ---- the library: one script per content, representation and function, over a part of the ranges ---- *)
Reps(t) == IF t = "bd" THEN <<"chunk", "static", "borrowed", "owned", "own">> ELSE <<"static", "borrowed", "owned", "own">>
Make(t, rep, n) ==
  IF t = "sb" THEN [op |-> "c_sb", how |-> rep, b |-> Byte(n), d |-> 1]
  ELSE IF t = "by" THEN [op |-> "c_by", how |-> rep, b |-> Byte(n), d |-> 1]
  ELSE IF rep = "own" THEN [op |-> "c_ext", how |-> "own", b |-> Content("sd", n), d |-> 1, oid |-> 1]
  ELSE IF t = "sd" THEN [op |-> "c_sd", how |-> (IF rep = "borrowed" THEN "from_str" ELSE rep), b |-> Text(n), d |-> 1]
  ELSE [op |-> "c_bd", how |-> rep, b |-> Byte(n), d |-> 1]
Fns(t) == CASE t = "sb" -> <<"sliced", "make", "into", "sliced_ol", "make_ol", "into_ol">>
            [] t = "by" -> <<"sliced">> [] OTHER -> <<"sliced", "make", "into", "into_shared">>
Cases(fn, n) == IF fn \in {"sliced_ol", "make_ol", "into_ol"} THEN [off : {Num(v) : v \in Words(n)}, len : {Num(v) : v \in Words(n)}]
                ELSE [rg : {Big(g) : g \in Ranges(n)}]
Call(fn, x) == IF HasF(x, "rg") THEN [op |-> "slc", fn |-> fn, rg |-> x.rg] ELSE [op |-> "slc", fn |-> fn, off |-> x.off, len |-> x.len]
One(fn, x) == LET k == Call(fn, x) IN
   IF fn \in {"sliced", "sliced_ol"} THEN <<[s |-> 1, d |-> 2] @@ k, [op |-> "drop", s |-> 2]>>
   ELSE <<[op |-> "clone", s |-> 1, d |-> 2], [s |-> 2] @@ k, [op |-> "drop", s |-> 2]>>
Batch == 20
Lines(t, rep, fn, n) ==
  LET all == SetToSeq(Cases(fn, n))
  IN [j \in 1..((Len(all) + Batch - 1) \div Batch) |->
        <<Make(t, rep, n)>> \o (IF t = "sd" /\ rep = "own" THEN <<[op |-> "conv", s |-> 1, to |-> "sd"]>> ELSE <<>>)
          \o FlattenSeq([i \in 1..Min2(Batch, Len(all) - (j - 1) * Batch) |-> One(fn, all[(j - 1) * Batch + i])])]
RepsOf(t) == CASE t = "sb" -> <<"slice">> [] t = "by" -> <<"copy", "static">> [] OTHER -> Reps(t)
Emit == (Gen /\ c.t = "none") =>
   \A t \in Types : \A r \in DOMAIN RepsOf(t) : \A f \in DOMAIN Fns(t) : \A n \in Lens :
     (~ (t = "bd" /\ RepsOf(t)[r] = "chunk" /\ n > 14)) =>
       LET ls == Lines(t, RepsOf(t)[r], Fns(t)[f], n) IN \A j \in DOMAIN ls : PrintT(<<"S", ToJsonObject([ops |-> ls[j]])>>)
=============================================================================
