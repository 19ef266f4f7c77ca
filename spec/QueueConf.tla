----------------------------- MODULE QueueConf -----------------------------
(***************************************************************************)
(* Trace validation for Queue: every recorded public call on the real      *)
(* queues must be a step of the specification, with the bookkeeping the    *)
(* queue reports (length, chunk count, emptiness) agreeing with the chunks *)
(* it hands out, and with every heap block the queues hold being given     *)
(* back once, with its layout, when nothing can reach it any more.         *)
(***************************************************************************)
EXTENDS Queue, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Relevant
CONSTANT Cap                          \* chunks a queue can hold (0: no limit)
VARIABLES h, i, S, C, lin, blks, gone, bad
vars == <<h, i, S, C, lin, blks, gone, bad>>

Init == /\ h \in DOMAIN Hist /\ i = 1
        /\ S = [k \in 1..NK |-> No]
        /\ C = [k \in 1..NK |-> <<>>]            \* chunks as last observed
        /\ lin = [k \in 1..NK |-> {}]            \* blocks a slot may keep alive
        /\ blks = <<>> /\ gone = {} /\ bad = {}

Crashed(e) == e.r.k \in {"crash", "hang"}
Got(e, k) == e.ch[CHOOSE j \in DOMAIN e.ch : e.ch[j].i = k]
ObsOf(e) == IF ~HasF(e, "s") THEN <<>>
            ELSE IF e.s \in {e.ch[k].i : k \in DOMAIN e.ch} /\ Got(e, e.s).t # "no" THEN Cat(Got(e, e.s).c) ELSE S[e.s].b
Mem(e) == LET ma == e.ma mf == e.mf IN
          [newb |-> {ma[k][1] : k \in DOMAIN ma},
           blks |-> blks \o [k \in 1..Len(ma) |-> [size |-> ma[k][2], align |-> ma[k][3]]],
           gone |-> gone \cup {mf[k][1] : k \in DOMAIN mf}]
Reach(e, ns, m) ==
  LET args == {e[f] : f \in {"s", "d"} \cap DOMAIN e}
      pool == (UNION {lin[k] : k \in args} \cup m.newb) \ m.gone
  IN [k \in 1..NK |-> IF ns[k].t = "no" THEN {} ELSE IF k \in args THEN pool ELSE lin[k]]
(* (Quantifying over a singleton makes TLC evaluate the value once.) *)
Step(e0) ==
  \E e \in {e0} : \E o \in {BOutcome(S, e, C, ObsOf(e), Cap)} : \E m \in {Mem(e)} : \E lin2 \in {Reach(e, o.ns, m)} :
  LET chi == {e.ch[k].i : k \in DOMAIN e.ch}
      chr(k) == Got(e, k)
      ns == o.ns
      contentOk == \A k \in 1..NK :
         IF k \in chi THEN chr(k).t = ns[k].t /\ (ns[k].t # "no" => Cat(chr(k).c) = ns[k].b)
         ELSE ns[k] = S[k]
      acctOk == \A j \in DOMAIN e.ch : LET c == e.ch[j] IN c.t # "no" =>
           /\ c.n = FoldLeft(LAMBDA a, b : a + Len(b), 0, c.c)
           /\ c.cn = Len(c.c)
           /\ c.e <=> (c.c = <<>>)
           /\ \A k \in DOMAIN c.c : c.c[k] # <<>>
      utf8Ok == \A j \in DOMAIN e.ch : e.ch[j].t = "sq" => \A k \in DOMAIN e.ch[j].c : Valid8(e.ch[j].c[k])
      blks2 == m.blks
      gone2 == m.gone
      layoutOk == \A k \in DOMAIN e.mf : LET f == e.mf[k] IN
            f[1] \in DOMAIN blks2 /\ blks2[f[1]].size = f[2] /\ blks2[f[1]].align = f[3]
      noLeak == ((1..Len(blks2)) \ gone2) \subseteq UNION {lin2[k] : k \in 1..NK}
      tags ==    (IF o.ok THEN {} ELSE {"result"})
            \cup (IF contentOk THEN {} ELSE {"content"})
            \cup (IF acctOk THEN {} ELSE {"acct"})
            \cup (IF utf8Ok THEN {} ELSE {"utf8"})
            \cup (IF layoutOk /\ e.mb = <<>> /\ noLeak THEN {} ELSE {"mem"})
  IN /\ bad' = tags
     /\ S' = ns /\ lin' = lin2 /\ blks' = blks2 /\ gone' = gone2
     /\ C' = [k \in 1..NK |-> IF k \in chi THEN (IF chr(k).t = "no" THEN <<>> ELSE chr(k).c) ELSE C[k]]

Next == /\ bad = {}
        /\ i <= Len(Hist[h].ev)
        /\ LET e == Hist[h].ev[i] IN
             IF Crashed(e) THEN bad' = {"crash"} /\ UNCHANGED <<S, C, lin, blks, gone>> ELSE Step(e)
        /\ i' = i + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Relevant = {}
View == <<h, i, bad>>
Report == bad \cap Relevant = {} \/ PrintT(<<"BAD", h, i - 1, bad \cap Relevant>>)
=============================================================================
