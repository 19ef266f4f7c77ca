----------------------------- MODULE RefcountMM ----------------------------
(***************************************************************************)
(* The memory model under which handles to shared storage are used by      *)
(* several threads, and what the handles promise.                          *)
(*                                                                         *)
(* The state s is advanced by entries e of an execution:                   *)
(*   a/f   a block is obtained / given back        r/w  a plain access     *)
(*   l/s/m an atomic load / store / read-modify-write    x    a fence      *)
(*   S/J   the threads are started / joined        c/e  a call on a handle *)
(* Happens-before is the C11 relation: per-thread vector clocks, joined    *)
(* when an acquire reads from a release sequence, with fences.  Promised:  *)
(*   race    conflicting accesses of a block are ordered, unless both are  *)
(*           atomic; giving a block back is an access of all of it         *)
(*   uaf     nothing accesses a block that was given back, or twice        *)
(*   layout  a block is given back with the layout it was obtained with    *)
(*   content every handle reads the content it was given                   *)
(*   uniq    a handle is the only one when it says so                      *)
(*   panic   no call on a handle fails                                     *)
(*   leak    every block is given back when the last handle is gone        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NT == 4                                     \* thread 1 is the main thread
Mx(a, b) == IF a > b THEN a ELSE b
Join(a, b) == <<Mx(a[1], b[1]), Mx(a[2], b[2]), Mx(a[3], b[3]), Mx(a[4], b[4])>>
Zero == <<0, 0, 0, 0>>
Start == [vc |-> <<<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>>>,
          fa |-> <<Zero, Zero, Zero, Zero>>, fr |-> <<Zero, Zero, Zero, Zero>>,
          loc |-> <<>>, blk |-> <<>>, acc |-> <<>>, gone |-> {},
          hs |-> <<>>, open |-> <<[op |-> ""], [op |-> ""], [op |-> ""], [op |-> ""]>>, bad |-> {}]

Acq(o) == o \in {1, 2, 4, 5}
Rel(o) == o \in {3, 4, 5}
Tick(s, t) == [s EXCEPT !.vc[t][t] = @ + 1]

(* A conflicting earlier access that does not happen before this one.      *)
Race(s, t, b, lo, hi, w, at) ==
  \E k \in DOMAIN s.acc[b] : LET x == s.acc[b][k] IN
     /\ x.t # t /\ (x.w \/ w) /\ ~ (x.at /\ at) /\ x.lo < hi /\ lo < x.hi
     /\ x.c > s.vc[t][x.t]
Access(s, t, b, lo, hi, w, at) ==
  [s EXCEPT !.bad = @ \cup (IF b \in s.gone THEN {"uaf"} ELSE {}) \cup (IF Race(s, t, b, lo, hi, w, at) THEN {"race"} ELSE {}),
            !.acc[b] = Append(@, [t |-> t, c |-> s.vc[t][t], lo |-> lo, hi |-> hi, w |-> w, at |-> at])]

Msg(s, e) == IF <<e.b, e.p>> \in DOMAIN s.loc THEN s.loc[<<e.b, e.p>>] ELSE Zero
ReadSide(s, e) ==
  IF Acq(e.o) THEN [s EXCEPT !.vc[e.t] = Join(@, Msg(s, e)), !.fa[e.t] = Join(@, Msg(s, e))]
  ELSE [s EXCEPT !.fa[e.t] = Join(@, Msg(s, e))]
(* a store starts a new release sequence, a read-modify-write continues it *)
WriteSide(s, e, old) ==
  LET mine == IF Rel(e.o) THEN s.vc[e.t] ELSE s.fr[e.t]
  IN [s EXCEPT !.loc = (<<e.b, e.p>> :> Join(old, mine)) @@ @]

Atomic(s, e) ==
  LET a == IF e.b = 0 THEN s                   \* outside the blocks: it only synchronises
           ELSE Access(s, e.t, e.b, e.p, e.p + e.n, e.k # "l", TRUE)
      r == IF e.k = "s" THEN a ELSE ReadSide(a, e)
      w == IF e.k = "l" THEN r ELSE WriteSide(r, e, IF e.k = "m" THEN Msg(s, e) ELSE Zero)
  IN Tick(w, e.t)
Fence(s, e) ==
  LET a == IF Acq(e.o) THEN [s EXCEPT !.vc[e.t] = Join(@, s.fa[e.t])] ELSE s
      r == IF Rel(e.o) THEN [a EXCEPT !.fr[e.t] = a.vc[e.t]] ELSE a
  IN Tick(r, e.t)
Obtain(s, e) ==
  Tick([s EXCEPT !.blk = Append(@, [n |-> e.n, al |-> e.al]),
                 !.acc = Append(@, <<[t |-> e.t, c |-> s.vc[e.t][e.t], lo |-> 0, hi |-> Mx(e.n, 1), w |-> TRUE, at |-> FALSE]>>)], e.t)
GiveBack(s, e) ==
  LET a == Access(s, e.t, e.b, 0, Mx(e.n, 1), TRUE, FALSE)
  IN Tick([a EXCEPT !.gone = @ \cup {e.b}, !.bad = @ \cup (IF s.blk[e.b] = [n |-> e.n, al |-> e.al] THEN {} ELSE {"layout"})], e.t)

(* Handles: content, the storage they certainly share (0: not known), and  *)
(* whether they are still there.                                           *)
Consumes == {"drop", "take", "conv"}
Live(s) == {h \in DOMAIN s.hs : s.hs[h].live}
Call(s, e) ==
  LET a == [s EXCEPT !.open[e.t] = [op |-> e.op, s |-> e.s, d |-> e.d,
                                    others |-> {h \in Live(s) : e.op = "uniq" /\ h # e.s /\ s.hs[h].g # 0 /\ s.hs[h].g = s.hs[e.s].g}]]
  IN IF e.op \notin Consumes THEN a
     ELSE LET c == [a EXCEPT !.hs[e.s].live = FALSE]
          IN [c EXCEPT !.open = [t \in 1..NT |-> IF c.open[t].op = "uniq" THEN [c.open[t] EXCEPT !.others = @ \ {e.s}] ELSE c.open[t]]]
Return(s, e, b) ==
  LET o == s.open[e.t]
      new(x, g) == [s EXCEPT !.hs = (o.d :> [b |-> x, g |-> g, live |-> TRUE]) @@ @]
      src == IF o.op = "create" THEN b ELSE s.hs[o.s].b
      g == IF o.op = "create" THEN o.d ELSE s.hs[o.s].g
  IN CASE o.op \in {"create", "clone"} -> new(src, g)
       [] o.op = "slice" -> new(Tail(src), g)
       [] o.op = "take" -> new(Append(src, 9), o.d)
       [] o.op = "conv" -> new(src, 0)
       [] o.op = "read" -> IF e.v = src THEN s ELSE [s EXCEPT !.bad = @ \cup {"content"}]
       [] o.op = "uniq" -> IF e.v = 1 /\ o.others # {} THEN [s EXCEPT !.bad = @ \cup {"uniq"}] ELSE s
       [] OTHER -> s

Spawn(s, e) == LET m == s.vc[1] IN
  [s EXCEPT !.vc = <<[m EXCEPT ![1] = @ + 1], [m EXCEPT ![2] = 1], [m EXCEPT ![3] = 1], [m EXCEPT ![4] = 1]>>]
JoinAll(s, e) == [s EXCEPT !.vc[1] = Join(Join(s.vc[1], s.vc[2]), Join(s.vc[3], s.vc[4]))]

(* One entry of an execution; b is the content the first handle is created with. *)
StepMM(s, e, b) ==
  CASE e.k = "r" -> Access(s, e.t, e.b, e.p, e.p + e.n, FALSE, FALSE)
    [] e.k = "w" -> Access(s, e.t, e.b, e.p, e.p + e.n, TRUE, FALSE)
    [] e.k \in {"l", "s", "m"} -> Atomic(s, e)
    [] e.k = "x" -> Fence(s, e)
    [] e.k = "a" -> Obtain(s, e)
    [] e.k = "f" -> GiveBack(s, e)
    [] e.k = "c" -> Call(s, e)
    [] e.k = "e" -> Return(s, e, b)
    [] e.k = "S" -> Spawn(s, e)
    [] e.k = "J" -> JoinAll(s, e)
    [] e.k = "P" -> [s EXCEPT !.bad = @ \cup {"panic"}]

Done(s) == s.bad \cup (IF s.gone = DOMAIN s.blk THEN {} ELSE {"leak"})
Verdict(log, b) == Done(FoldLeft(LAMBDA s, e : StepMM(s, e, b), Start, log))
=============================================================================
