--------------------------- MODULE InternConcConf --------------------------
(* Trace validation for an interner shared by several threads, executed    *)
(* under chosen schedules and recorded access by access: the calls are     *)
(* linearizable (Intern) and the accesses keep the promises of the memory  *)
(* model (RefcountMM).                                                     *)
EXTENDS RefcountMM, Json, IOUtils
I == INSTANCE Intern
Hist == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Relevant
VARIABLES h, i, j, bad
vars == <<h, i, j, bad>>
Init == h \in DOMAIN Hist /\ i = 1 /\ j = 1 /\ bad = {}
Crashed(e) == e.r.k \in {"crash", "hang"}
RunOk(e, x) == x.r.k = "ok" /\ I!ConcOk([thr |-> e.thr, r |-> x.r], {}, [g |-> 1, mx |-> e.m])
Next ==
  /\ bad = {}
  /\ i <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[i] IN
     IF Crashed(e) THEN bad' = {"crash"} /\ i' = i + 1 /\ j' = j
     ELSE IF j > Len(e.runs) THEN i' = i + 1 /\ j' = 1 /\ bad' = bad
     ELSE LET v == Verdict(e.runs[j].log, <<>>) \cup (IF RunOk(e, e.runs[j]) THEN {} ELSE {"result"}) IN
          /\ bad' = v
          /\ IF v = {} THEN i' = i /\ j' = j + 1
             ELSE i' = i + 1 /\ j' = j
  /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Relevant = {}
View == <<h, i, j, bad>>
Report == bad \cap Relevant = {} \/ PrintT(<<"BAD", h, i - 1, bad \cap Relevant>>)
=============================================================================
