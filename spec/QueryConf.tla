----------------------------- MODULE QueryConf -----------------------------
(***************************************************************************)
(* Validation of recorded calls against Query.  Every call builds its own  *)
(* values and drops them, so all heap blocks obtained during a call are    *)
(* given back during it, once, with the layout they were obtained with.    *)
(***************************************************************************)
EXTENDS Query, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Relevant
VARIABLES h, i, bad
vars == <<h, i, bad>>
Init == h \in DOMAIN Hist /\ i = 1 /\ bad = {}
Crashed(e) == e.r.k \in {"crash", "hang"}
MemOk(e) ==
  /\ e.mb = <<>>
  /\ Len(e.ma) = Len(e.mf)
  /\ {e.ma[k] : k \in DOMAIN e.ma} = {e.mf[k] : k \in DOMAIN e.mf}
Tags(e) == (IF Good(e) THEN {} ELSE {"result"}) \cup (IF MemOk(e) THEN {} ELSE {"mem"})
Next == /\ i <= Len(Hist[h].ev)
        /\ LET e == Hist[h].ev[i] IN bad' = IF Crashed(e) THEN {"crash"} ELSE Tags(e)
        /\ i' = i + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Relevant = {}
View == <<h, i, bad>>
Report == bad \cap Relevant = {} \/ PrintT(<<"BAD", h, i - 1, bad \cap Relevant>>)
=============================================================================
