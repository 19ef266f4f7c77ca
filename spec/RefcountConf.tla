---------------------------- MODULE RefcountConf ---------------------------
(* Trace validation for RefcountMM: every recorded execution of a program  *)
(* of handle operations on the real library, under a chosen schedule, must *)
(* keep every promise of the memory model.                                 *)
EXTENDS RefcountMM, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Relevant
VARIABLES h, i, j, bad
vars == <<h, i, j, bad>>
Init == h \in DOMAIN Hist /\ i = 1 /\ j = 1 /\ bad = {}
Crashed(e) == e.r.k \in {"crash", "hang"}
Next ==
  /\ bad = {}
  /\ i <= Len(Hist[h].ev)
  /\ LET e == Hist[h].ev[i] IN
     IF Crashed(e) THEN bad' = {"crash"} /\ i' = i + 1 /\ j' = j
     ELSE IF j > Len(e.runs) THEN i' = i + 1 /\ j' = 1 /\ bad' = bad
     ELSE LET v == Verdict(e.runs[j].log, e.b) IN
          /\ bad' = v
          /\ IF v = {} THEN i' = i /\ j' = j + 1
             ELSE i' = i + 1 /\ j' = j
  /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Relevant = {}
View == <<h, i, j, bad>>
Report == bad \cap Relevant = {} \/ PrintT(<<"BAD", h, i - 1, bad \cap Relevant>>)
=============================================================================
