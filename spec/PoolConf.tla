------------------------------ MODULE PoolConf ------------------------------
(***************************************************************************)
(* Trace validation for Pool: every recorded public call of the real       *)
(* library must be a step of the specification.  On top of the content     *)
(* semantics of module Pool this module specifies ownership: which heap    *)
(* blocks (observed at the global allocator) and which external owners     *)
(* each live value may keep alive.  A block or owner must be alive while a *)
(* live value's bytes lie in it, must be gone as soon as no live value may *)
(* keep it, and is given back once, with the layout it was obtained with.  *)
(***************************************************************************)
EXTENDS Pool, Integers, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Relevant            \* the kinds of disagreement that decide the property being checked

VARIABLES h, i, S, O, lin, olin, lent, blks, gone, bad
vars == <<h, i, S, O, lin, olin, lent, blks, gone, bad>>

NoObs == [t |-> "no", blk |-> 0, free |-> 0, n |-> 0]
Init == /\ h \in DOMAIN Hist
        /\ i = 1
        /\ S = [k \in 1..NK |-> No]
        /\ O = [k \in 1..NK |-> NoObs]           \* last observed projection
        /\ lin = [k \in 1..NK |-> {}]            \* blocks the value in a slot may keep alive
        /\ olin = [k \in 1..NK |-> {}]           \* external owners it may keep alive
        /\ lent = [k \in 1..NK |-> {}]           \* borrowed storage it may look at
        /\ blks = <<>>                           \* id -> [size, align] of every block so far (live or not)
        /\ gone = [b |-> {}, o |-> {}]           \* freed blocks, dropped owners
        /\ bad = {}

Args(e) == {e[f] : f \in {"s", "d"} \cap DOMAIN e}
PaOk(pa, al) == pa = 0 \/ al <= 1 \/ pa >= al \/ pa >= 4096

(* Long contents are recorded as runs <<byte, count>>; the specification works on the plain content. *)
RECURSIVE Fill(_, _), Expand(_)
Fill(x, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<x>>
              ELSE LET f == Fill(x, n \div 2) IN IF n % 2 = 0 THEN f \o f ELSE f \o f \o <<x>>
Expand(rb) == IF rb = <<>> THEN <<>> ELSE Fill(rb[1][1], rb[1][2]) \o Expand(Tail(rb))
Plain(c) == IF HasF(c, "rb") THEN [f \in DOMAIN c \cup {"b"} |-> IF f = "b" THEN Expand(c.rb) ELSE c[f]] ELSE c
Norm(e) == IF HasF(e, "rb") \/ \E k \in DOMAIN e.ch : HasF(e.ch[k], "rb")
           THEN [f \in DOMAIN e \cup (IF HasF(e, "rb") THEN {"b"} ELSE {}) |->
                    IF f = "ch" THEN [k \in DOMAIN e.ch |-> Plain(e.ch[k])] ELSE IF f = "b" /\ HasF(e, "rb") THEN Expand(e.rb) ELSE e[f]]
           ELSE e
Crashed(e) == e.r.k \in {"crash", "hang"}
Subj(e) == IF HasF(e, "s") THEN e.s ELSE 0
Got(e, k) == e.ch[CHOOSE j \in DOMAIN e.ch : e.ch[j].i = k]
Obs(e) == LET chi == {e.ch[k].i : k \in DOMAIN e.ch} IN
          [k \in 1..NK |-> IF k \in chi
                THEN LET c == Got(e, k) IN [t |-> c.t, blk |-> IF HasF(c, "blk") THEN c.blk ELSE 0,
                                            free |-> IF HasF(c, "free") THEN c.free ELSE 0, n |-> IF HasF(c, "n") THEN c.n ELSE 0]
                ELSE O[k]]
ObT(e, obs) == IF Subj(e) = 0 THEN "no" ELSE obs[Subj(e)].t
ObV(e) == IF HasF(e.r, "v") /\ e.op = "push" THEN e.r.v ELSE 0
(* Blocks after the call: every block so far, the ones given back, the ones new or given back in it. *)
Mem(e) == LET ma == e.ma mf == e.mf dr == e.dr frb == {mf[k][1] : k \in DOMAIN mf} IN
          [newb |-> {ma[k][1] : k \in DOMAIN ma},
           blks |-> blks \o [k \in 1..Len(ma) |-> [size |-> ma[k][2], align |-> ma[k][3]]],
           gone |-> [b |-> gone.b \cup frb, o |-> gone.o \cup {dr[k] : k \in DOMAIN dr}]]
(* What each value may keep alive after the call: what it produced may keep alive whatever its     *)
(* operands kept alive, and anything new.                                                          *)
Reach(e, xs, m) ==
  LET args == Args(e)
      pool == (UNION {lin[k] : k \in args} \cup m.newb) \ m.gone.b
      \* the owner of an external value may be a buffer of the bytes crate, which gets a counter of its own (seen by every value
      \* of that owner) when a first buffer is made from it
      seen(k) == IF (\E j \in args : xs[j].t = "by") /\ lin[k] \cap (UNION {lin[j] : j \in args} \ m.gone.b) # {} THEN m.newb \ m.gone.b ELSE {}
      opool == UNION {olin[k] : k \in args} \cup (IF HasF(e, "oid") THEN {e.oid} ELSE {})
  IN [b |-> [k \in 1..NK |-> IF xs[k].t = "no" THEN {} ELSE IF k \in args THEN pool ELSE lin[k] \cup seen(k)],
      o |-> [k \in 1..NK |-> IF xs[k].t = "no" THEN {} ELSE IF k \in args THEN opool ELSE olin[k]],
      all |-> UNION {olin[k] : k \in 1..NK} \cup opool]
(* (Quantifying over a singleton makes TLC evaluate the value once.) *)
Step(e0) ==
  \E e \in {Norm(e0)} : \E obs \in {Obs(e)} : \E x \in {Exp(S, e, ObT(e, obs), ObV(e))} :
  \E m \in {Mem(e)} : \E own \in {Reach(e, x.ns, m)} :
  LET r   == e.r
      s   == Subj(e)
      chi == {e.ch[k].i : k \in DOMAIN e.ch}
      chr(k) == Got(e, k)
      obst == ObT(e, obs)
      obsv == ObV(e)
      xs  == x.ns
      (* ---- result ---- *)
      resOk ==
        CASE x.k = "either" -> /\ r.k \in {"ok", "err"}
                               /\ obst = (IF r.k = "ok" THEN "bm" ELSE "by")
          [] x.k = "filled" -> /\ r.k = "ok"
                               /\ obsv <= Len(e.b)
                               /\ e.how = "chunk" => (obsv >= 1 \/ e.b = <<>>)
                               /\ e.how # "chunk" => obsv = Min2(Len(e.b), O[s].free)
          [] x.k = "uniq"   -> r.k = "ok"
          [] x.k = "borrow" -> r.k = "none" \/ (r.k = "ok" /\ r.v = S[s].b)
          [] x.k = "remmut" -> r.k = "ok" /\ r.v <= 1499999999 - Len(S[s].b) /\ r.v >= 1499999999 - Len(S[s].b) - 2048
          [] x.k = "views"  -> r.k = "ok" /\ r.v # <<>> /\ \A k \in DOMAIN r.v : r.v[k] = S[s].b
          [] x.k = "expire" -> r.k = "ok" /\ \A k \in 1..NK : e.ln \notin lent[k]
          [] x.k = "badop"  -> FALSE
          [] OTHER -> r.k = x.k /\ (x.hv => r.v = x.v)
      cowOk == (e.op = "conv" /\ e.to = "cow") => obst \in (IF S[s].t = "bd" THEN {"bd", "vec"} ELSE {"sd", "str"})
      (* ---- content of every slot ---- *)
      contentOk == \A k \in 1..NK :
         IF k \in chi
         THEN LET c == chr(k) IN
              IF xs[k].t = "no" THEN c.t = "no"
              ELSE c.t = xs[k].t /\ c.b = xs[k].b /\ c.n = Len(xs[k].b) /\ (c.e <=> xs[k].b = <<>>)
         ELSE xs[k].t = S[k].t /\ xs[k].b = S[k].b
      utf8Ok == \A j \in DOMAIN e.ch : e.ch[j].t \in {"sd", "tb", "str"} => Valid8(e.ch[j].b)
      (* ---- builders: capacity, free space, alignment ---- *)
      bbOk == \A j \in DOMAIN e.ch : LET c == e.ch[j] IN
           /\ c.t = "bb" => (c.cap = c.n + c.free)
           /\ c.t \in {"bb", "tb"} => c.cap >= c.n
           /\ (c.t \in {"bb", "tb", "sb"} /\ xs[c.i].t = c.t) => PaOk(c.pa, xs[c.i].al)
      capOk == /\ (e.op \in {"c_bb", "c_tb"} /\ HasF(e, "cap") /\ r.k = "ok") => chr(e.d).cap >= e.cap
               /\ (e.op = "reserve" /\ r.k = "ok") => IF obst = "bb" THEN obs[s].free >= e.m ELSE (s \in chi => chr(s).cap >= Len(S[s].b) + e.m)
      (* ---- memory ---- *)
      args == Args(e)
      blks2 == m.blks
      gone2 == m.gone
      lin2 == own.b
      olin2 == own.o
      \* only byte and text values borrow, and not once they were made shared
      lends == e.op \in {"c_bd", "c_sd"} /\ HasF(e, "ln") /\ e.how \in {"borrowed", "from_slice", "cow_b", "from_cow", "from_cows_b", "from_str"}
      detach == (e.op = "conv" /\ e.to = "shared") \/ (e.op = "slc" /\ e.fn = "into_shared")
      lent2 == [k \in 1..NK |-> IF xs[k].t \notin {"bd", "sd"} THEN {} ELSE IF k \notin args THEN lent[k]
                   ELSE IF lends THEN {e.ln} ELSE IF detach \/ s = 0 THEN {} ELSE lent[s]]
      layoutOk == \A k \in DOMAIN e.mf : LET f == e.mf[k] IN
            f[1] \in DOMAIN blks2 /\ blks2[f[1]].size = f[2] /\ blks2[f[1]].align = f[3]
      onceOk == e.mb = <<>>
      aliveOk == \A k \in 1..NK : xs[k].t # "no" => obs[k].blk \notin gone2.b
      noLeak == ((1..Len(blks2)) \ gone2.b) \subseteq UNION {lin2[k] : k \in 1..NK}
      (* ---- external owners ---- *)
      dropOnce == /\ Len(e.dr) = Cardinality({e.dr[k] : k \in DOMAIN e.dr})
                  /\ \A k \in DOMAIN e.dr : e.dr[k] \notin gone.o
      ownGone == \A o \in own.all : (\E k \in 1..NK : o \in olin2[k]) \/ o \in gone2.o
      (* ---- uniqueness: granted only when no other live value can see the block ---- *)
      sameBlk(k) == k # s /\ xs[k].t # "no" /\ obs[k].blk # 0 /\ obs[k].blk = O[s].blk
      shareLin(k) == k # s /\ xs[k].t # "no" /\ O[s].blk \in lin[k]
      uniqOk == /\ (x.k = "uniq" /\ r.k = "ok" /\ r.v /\ O[s].blk # 0) => ~ \E k \in 1..NK : sameBlk(k)
                /\ (x.k = "uniq" /\ r.k = "ok" /\ ~ r.v /\ S[s].t = "sb") => (O[s].blk = 0 \/ \E k \in 1..NK : shareLin(k))
                /\ (x.k = "either" /\ r.k = "ok" /\ obs[s].blk # 0 /\ obs[s].blk = O[s].blk) => ~ \E k \in 1..NK : sameBlk(k)
      tags == (   (IF resOk /\ cowOk THEN {} ELSE {"result"})
                 \cup (IF contentOk THEN {} ELSE {"content"})
                 \cup (IF utf8Ok THEN {} ELSE {"utf8"})
                 \cup (IF bbOk /\ capOk THEN {} ELSE {"builder"})
                 \cup (IF layoutOk /\ onceOk /\ aliveOk /\ noLeak THEN {} ELSE {"mem"})
                 \cup (IF dropOnce /\ ownGone THEN {} ELSE {"owner"})
                 \cup (IF uniqOk THEN {} ELSE {"uniq"}))
  IN /\ bad' = tags
     /\ S' = xs /\ O' = obs /\ lin' = lin2 /\ olin' = olin2 /\ lent' = lent2 /\ blks' = blks2 /\ gone' = gone2

Next == /\ bad = {}
        /\ i <= Len(Hist[h].ev)
        /\ LET e == Hist[h].ev[i] IN
             IF Crashed(e) THEN bad' = {"crash"} /\ UNCHANGED <<S, O, lin, olin, lent, blks, gone>>
             ELSE Step(e)
        /\ i' = i + 1 /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
(* Which kinds of disagreement count for the property being checked.       *)
Conforms == bad \cap Relevant = {}
View == <<h, i, bad>>
(* One line per disagreement, for the report (always true).                *)
Report == bad \cap Relevant = {} \/ PrintT(<<"BAD", h, i - 1, bad \cap Relevant>>)
=============================================================================
