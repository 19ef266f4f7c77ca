----------------------------- MODULE InternConf ----------------------------
(* Trace validation for Intern, including the memory the interners and the *)
(* values they handed out keep alive.                                      *)
EXTENDS Intern, TLC, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Relevant
VARIABLES h, i, I, M, V, glin, vlin, obs, blks, gone, bad
vars == <<h, i, I, M, V, glin, vlin, obs, blks, gone, bad>>
MaxG == 60
Init == /\ h \in DOMAIN Hist /\ i = 1
        /\ I = [k \in 1..NI |-> NoI] /\ M = {} /\ V = [k \in 1..NV |-> NoV]
        /\ glin = [g \in 1..MaxG |-> {}] /\ vlin = [k \in 1..NV |-> {}] /\ obs = [k \in 1..NV |-> 0]
        /\ blks = <<>> /\ gone = {} /\ bad = {}
Crashed(e) == e.r.k \in {"crash", "hang"}
Mem(e) == LET ma == e.ma mf == e.mf IN
          [newb |-> {ma[k][1] : k \in DOMAIN ma},
           blks |-> blks \o [k \in 1..Len(ma) |-> [size |-> ma[k][2], align |-> ma[k][3], soft |-> e.op = "conc"]],
           gone |-> gone \cup {mf[k][1] : k \in DOMAIN mf}]
Reach(e, o, m) ==
  LET g == IF HasF(e, "s") /\ e.op \in {"intern", "conc", "iclone", "iclear", "idrop"} THEN I[e.s].g
           ELSE IF e.op = "inew" THEN i ELSE 0
      gl0 == IF g = 0 THEN {} ELSE (glin[g] \cup m.newb) \ m.gone
      \* a value may be what keeps a block alive, whether it came from the map or from the argument
      vpool == (gl0 \cup m.newb) \ m.gone
  IN [v |-> [k \in 1..NV |-> IF o.V[k].t = "no" THEN {} ELSE IF e.op = "intern" /\ k = e.d THEN vpool ELSE vlin[k]],
      g |-> [x \in 1..MaxG |-> IF ~ \E k \in 1..NI : o.I[k].g = x THEN {}
                                   ELSE IF x = g THEN gl0 ELSE glin[x]]]
(* (Quantifying over a singleton makes TLC evaluate the value once.) *)
Step(e0) ==
  \E e \in {e0} : \E o \in {Outcome(I, M, V, e, i)} : \E m \in {Mem(e)} : \E own \in {Reach(e, o, m)} :
  LET chi == {e.ch[k].i : k \in DOMAIN e.ch}
      chr(k) == e.ch[CHOOSE j \in DOMAIN e.ch : e.ch[j].i = k]
      contentOk == \A k \in 1..NV :
         IF k \in chi THEN chr(k).t = o.V[k].t /\ (o.V[k].t # "no" => chr(k).b = o.V[k].b)
         ELSE o.V[k] = V[k]
      utf8Ok == \A j \in DOMAIN e.ch : e.ch[j].t = "sd" => Valid8(e.ch[j].b)
      blks2 == m.blks
      gone2 == m.gone
      vlin2 == own.v
      glin2 == own.g
      obs2 == [k \in 1..NV |-> IF k \in chi THEN (IF HasF(chr(k), "blk") THEN chr(k).blk ELSE 0) ELSE obs[k]]
      layoutOk == \A k \in DOMAIN e.mf : LET f == e.mf[k] IN
            f[1] \in DOMAIN blks2 /\ blks2[f[1]].size = f[2] /\ blks2[f[1]].align = f[3]
      noLeak == \A b \in DOMAIN blks2 : b \in gone2 \/ blks2[b].soft
                   \/ (\E k \in 1..NV : b \in vlin2[k]) \/ (\E x \in 1..MaxG : b \in glin2[x])
      aliveOk == \A k \in 1..NV : o.V[k].t # "no" => obs2[k] \notin gone2
      tags ==    (IF o.ok THEN {} ELSE {"result"})
            \cup (IF contentOk THEN {} ELSE {"content"})
            \cup (IF utf8Ok THEN {} ELSE {"utf8"})
            \cup (IF layoutOk /\ e.mb = <<>> /\ noLeak /\ aliveOk THEN {} ELSE {"mem"})
  IN /\ bad' = tags
     /\ I' = o.I /\ M' = o.M /\ V' = o.V /\ glin' = glin2 /\ vlin' = vlin2 /\ obs' = obs2 /\ blks' = blks2 /\ gone' = gone2
Next == /\ bad = {}
        /\ i <= Len(Hist[h].ev)
        /\ LET e == Hist[h].ev[i] IN
             IF Crashed(e) THEN bad' = {"crash"} /\ UNCHANGED <<I, M, V, glin, vlin, obs, blks, gone>> ELSE Step(e)
        /\ i' = i + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Conforms == bad \cap Relevant = {}
View == <<h, i, bad>>
Report == bad \cap Relevant = {} \/ PrintT(<<"BAD", h, i - 1, bad \cap Relevant>>)
=============================================================================
