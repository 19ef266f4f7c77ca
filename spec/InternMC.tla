------------------------------ MODULE InternMC ------------------------------
(***************************************************************************)
(* The interner's design, exhaustively: threads interning, looking up and  *)
(* clearing through one interner (or a clone of it made by the thread),    *)
(* step by step - the map created on first use by compare-and-swap, each   *)
(* entry looked up and inserted under its shard's lock, clearing shard by  *)
(* shard, clones counted.  Checked in every interleaving: the calls are    *)
(* linearizable in the sense of Intern, nothing is used after it was given *)
(* back, and nothing is left over.  The programs explored here are printed *)
(* and executed on the library under enumerated schedules.                 *)
(***************************************************************************)
EXTENDS Intern, TLC, Json
CONSTANTS Cas,        \* the map is published by compare-and-swap (else: by a plain store)
          Recheck,    \* the entry is looked for again under the lock that inserts it
          Share,      \* cloning an interner without a map gives it one first
          MaxOps, NKeys, Gen
VARIABLES prog, th, ptr, maps, ent, sto, clock, calls
vars == <<prog, th, ptr, maps, ent, sto, clock, calls>>
(* ptr: the shared interner's map (0: none yet); maps: m -> handles on it  *)
(* (0: given back); ent: m -> key -> storage (0: no entry); sto: storages  *)
(* handed out so far; th: what each thread is doing.                       *)
T == {1, 2}
K == 1..NKeys
Key(k) == [j \in 1..15 |-> IF j = 15 THEN 119 + k ELSE 97]
Op1 == [how : {"always", "get"}, k : K] \cup {[how |-> "clear", k |-> 1]}
Seqs == UNION {[1..n -> Op1] : n \in 1..MaxOps}
Progs == [own : BOOLEAN, ops : Seqs]
Touches(p) == \E j \in DOMAIN p.ops : p.ops[j].how = "always"
Code(p) == FoldLeft(LAMBDA a, o : (a * 9 + (CASE o.how = "always" -> 1 [] o.how = "get" -> 4 [] OTHER -> 7) + o.k), IF p.own THEN 1 ELSE 0, p.ops)
Idle(p) == [ops |-> p.ops, mine |-> -1, at |-> IF p.own THEN "clone" ELSE "call", back |-> "", m |-> 0, j |-> 0, call |-> 0]
FirstKey(q) == LET o == SelectSeq(q[1].ops \o q[2].ops, LAMBDA x : x.how # "clear") IN o # <<>> /\ o[1].k = 1
Init == /\ prog \in {q \in Progs \X Progs : (Touches(q[1]) \/ Touches(q[2])) /\ Code(q[1]) <= Code(q[2]) /\ FirstKey(q)}
        /\ th = [t \in T |-> Idle(prog[t])]
        /\ ptr = 0 /\ maps = <<>> /\ ent = <<>> /\ sto = 0 /\ clock = 1 /\ calls = [k \in K |-> <<>>]
(* The cell a thread goes through: the shared interner's (mine = -1) or    *)
(* that of its own clone.                                                  *)
Cell(t) == IF th[t].mine = -1 THEN ptr ELSE th[t].mine
Op(t) == th[t].ops[1]
Key1(t) == Op(t).k
Set(t, r) == th' = [th EXCEPT ![t] = r]
Count(m, d) == maps' = [maps EXCEPT ![m] = @ + d]
Create(t, back) == /\ maps' = Append(maps, 1) /\ ent' = Append(ent, [k \in K |-> 0])
                   /\ Set(t, [th[t] EXCEPT !.at = "publish", !.back = back, !.m = Len(maps) + 1, !.call = IF back = "look" THEN clock ELSE @])
                   /\ UNCHANGED <<ptr, sto, calls>>
Ret(t, kind, sid, since) ==
  /\ calls' = [k \in K |-> IF Op(t).how = "clear" \/ Op(t).k = k
        THEN Append(calls[k], [how |-> Op(t).how, b |-> Key(k), call |-> since, ret |-> clock + 1, kind |-> kind, content |-> Key(k), sid |-> sid]) ELSE calls[k]]
  /\ clock' = clock + 2
  /\ Set(t, [th[t] EXCEPT !.ops = Tail(@), !.at = "call"])
Cloning(t) == /\ th[t].at = "clone" /\ clock' = clock
              /\ IF ptr # 0 THEN Count(ptr, 1) /\ Set(t, [th[t] EXCEPT !.at = "call", !.mine = ptr]) /\ UNCHANGED <<ptr, sto, calls, ent>>
                 ELSE IF Share THEN Create(t, "clone")
                 ELSE Set(t, [th[t] EXCEPT !.at = "call", !.mine = 0]) /\ UNCHANGED <<ptr, sto, calls, ent, maps>>
Publish(t) ==
  /\ th[t].at = "publish" /\ UNCHANGED <<clock, sto, calls, ent>>
  /\ LET me == th[t]  lost == Cas /\ Cell(t) # 0  m == IF lost THEN Cell(t) ELSE me.m IN
     /\ maps' = [x \in DOMAIN maps |-> IF lost /\ x = me.m THEN 0 ELSE maps[x] + (IF me.back = "clone" /\ x = m THEN 1 ELSE 0)]
     /\ ptr' = IF me.mine = -1 /\ ~ lost THEN m ELSE ptr
     /\ Set(t, [me EXCEPT !.m = m, !.at = IF me.back = "clone" THEN "call" ELSE "look",
                          !.mine = IF me.back = "clone" THEN m ELSE IF me.mine # -1 THEN m ELSE -1])
Calling(t) ==
  /\ th[t].at = "call"
  /\ IF th[t].ops = <<>>
     THEN /\ Set(t, [th[t] EXCEPT !.at = "done"]) /\ UNCHANGED <<ptr, sto, calls, ent, clock>>
          /\ IF th[t].mine > 0 THEN Count(th[t].mine, -1) ELSE UNCHANGED maps
     ELSE LET c == Cell(t) IN
          IF c # 0 THEN Set(t, [th[t] EXCEPT !.at = IF Op(t).how = "clear" THEN "clear" ELSE "look", !.m = c, !.j = 1, !.call = clock]) /\ clock' = clock + 1 /\ UNCHANGED <<ptr, sto, calls, ent, maps>>
          ELSE IF Op(t).how = "always" THEN Create(t, "look") /\ clock' = clock + 1
          ELSE Ret(t, IF Op(t).how = "get" THEN "err" ELSE "ok", 0, clock) /\ UNCHANGED <<ptr, sto, ent, maps>>
Look(t) ==
  /\ th[t].at = "look" /\ UNCHANGED <<ptr, maps, ent, sto>>
  /\ LET x == ent[th[t].m][Key1(t)] IN
     IF x # 0 THEN Ret(t, "ok", x, th[t].call)
     ELSE IF Op(t).how = "get" THEN Ret(t, "err", 0, th[t].call)
     ELSE Set(t, [th[t] EXCEPT !.at = "insert"]) /\ UNCHANGED <<calls, clock>>
Insert(t) ==
  /\ th[t].at = "insert" /\ UNCHANGED <<ptr, maps>>
  /\ LET x == ent[th[t].m][Key1(t)] IN
     IF Recheck /\ x # 0 THEN Ret(t, "ok", x, th[t].call) /\ UNCHANGED <<ent, sto>>
     ELSE ent' = [ent EXCEPT ![th[t].m][Key1(t)] = sto + 1] /\ sto' = sto + 1 /\ Ret(t, "ok", sto + 1, th[t].call)
Clearing(t) ==
  /\ th[t].at = "clear" /\ UNCHANGED <<ptr, maps, sto>>
  /\ ent' = [ent EXCEPT ![th[t].m][th[t].j] = 0]
  /\ IF th[t].j = NKeys THEN Ret(t, "ok", 0, th[t].call)
     ELSE Set(t, [th[t] EXCEPT !.j = @ + 1]) /\ UNCHANGED <<calls, clock>>
Step(t) == Cloning(t) \/ Publish(t) \/ Calling(t) \/ Look(t) \/ Insert(t) \/ Clearing(t)
Next == UNCHANGED prog /\ \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars

Ended == \A t \in T : th[t].at = "done"
Probe(k) == LET x == IF ptr = 0 THEN 0 ELSE ent[ptr][k] IN
            [how |-> "get", b |-> Key(k), call |-> 1000, ret |-> 1001, kind |-> IF x = 0 THEN "err" ELSE "ok", content |-> Key(k), sid |-> x]
Linear == Ended => \A k \in K : LinOk(Append(calls[k], Probe(k)), {}, 64)
Held == \A t \in T : th[t].at \in {"look", "insert", "clear"} => maps[th[t].m] > 0
NoLeft == Ended => \A m \in DOMAIN maps : maps[m] = (IF m = ptr THEN 1 ELSE 0)
Correct == Linear /\ Held /\ NoLeft
Thr(p) == [own |-> p.own, ops |-> [j \in DOMAIN p.ops |-> IF p.ops[j].how = "clear" THEN [how |-> "clear"] ELSE [how |-> p.ops[j].how, rep |-> p.ops[j].k % 2, b |-> Key(p.ops[j].k)]]]
Emit == ~ (Gen /\ clock = 1 /\ maps = <<>> /\ \A t \in T : th[t] = Idle(prog[t]))
        \/ PrintT(<<"S", ToJson([ops |-> <<[op |-> "iexplore", lazy |-> TRUE, m |-> 64, thr |-> <<Thr(prog[1]), Thr(prog[2])>>, max |-> 20, seed |-> 1]>>])>>)
=============================================================================
