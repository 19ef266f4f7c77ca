----------------------------- MODULE RefcountMC ----------------------------
(***************************************************************************)
(* The design, exhaustively: handles that share one counted block, used by *)
(* two threads in every interleaving, under the memory model of            *)
(* RefcountMM with the memory orders as constants.  Each operation is the  *)
(* sequence of accesses its design prescribes.  The programs explored here *)
(* are printed and executed on the library under enumerated schedules.     *)
(***************************************************************************)
EXTENDS RefcountMM, Json
CONSTANTS CloneOrd, DropOrd, UniqOrd,      \* memory orders
          MaxOps,                          \* operations per thread
          Types                            \* representations to execute the programs on
OpNames == {"clone", "read", "drop", "take", "uniq", "slice", "conv"}
SeqsUpTo(n) == UNION {[1..k -> OpNames] : k \in 1..n}
(* programs in which the threads can disturb each other *)
Busy(p) == \E k \in DOMAIN p : p[k] \in {"take", "read", "uniq", "conv"}
Progs == {p \in SeqsUpTo(MaxOps) : Busy(p)}
Hash(p) == FoldLeft(LAMBDA a, o : (a * 7 + Len(o)) % 1000, Len(p), p)

VARIABLES prog, s, cnt, todo, own, nexth, who
vars == <<prog, s, cnt, todo, own, nexth, who>>
B0 == <<65, 66, 67>>
Run(x, es) == FoldLeft(LAMBDA y, e : StepMM(y, e, B0), x, es)
\* main creates the block and a second handle, then starts the threads
Setup == Run(Start, <<
  [k |-> "c", t |-> 1, op |-> "create", s |-> 0, d |-> 1],
  [k |-> "a", t |-> 1, b |-> 1, n |-> 16, al |-> 4], [k |-> "w", t |-> 1, b |-> 1, p |-> 0, n |-> 16],
  [k |-> "e", t |-> 1, v |-> 0],
  [k |-> "c", t |-> 1, op |-> "clone", s |-> 1, d |-> 2],
  [k |-> "m", t |-> 1, b |-> 1, p |-> 0, n |-> 4, o |-> CloneOrd, v |-> 2],
  [k |-> "e", t |-> 1, v |-> 0], [k |-> "S", n |-> 2]>>)
\* A thread's handles: [id, blk] with blk = 1 shared or a private block; todo: operations left,
\* and inside an operation the point reached in it.
Init == /\ prog \in Progs \X Progs
        /\ s = Setup /\ cnt = 2 /\ nexth = 3
        /\ todo = [t \in {2, 3} |-> [ops |-> prog[t - 1], at |-> 0]]
        /\ own = [t \in {2, 3} |-> <<[id |-> IF t = 2 THEN 2 ELSE 1, b |-> 1]>>]
        /\ who = 0
Top(t) == own[t][Len(own[t])]
Pop(t) == SubSeq(own[t], 1, Len(own[t]) - 1)
\* at the end of its program a thread drops what it has left
Op(t) == IF todo[t].ops # <<>> THEN todo[t].ops[1] ELSE IF own[t] # <<>> THEN "drop" ELSE "end"
Rest(t) == IF todo[t].ops = <<>> THEN <<>> ELSE Tail(todo[t].ops)
Finish(t) == todo' = [todo EXCEPT ![t] = [ops |-> Rest(t), at |-> 0]]
Goto(t, n) == todo' = [todo EXCEPT ![t].at = n]
C(t, op, src, d) == [k |-> "c", t |-> t, op |-> op, s |-> src, d |-> d]
R(t, v) == [k |-> "e", t |-> t, v |-> v]
At(k, t, o, v) == [k |-> k, t |-> t, b |-> 1, p |-> 0, n |-> 4, o |-> o, v |-> v]
Content(t) == s.hs[Top(t).id].b
\* releasing the shared block: the count goes down; the one who takes it to zero gives it back
Step(t) ==
  LET op == Op(t) at == todo[t].at me == Top(t) priv == me.b # 1 IN
  /\ op # "end" /\ who' = t /\ UNCHANGED prog
  /\ IF own[t] = <<>> THEN Finish(t) /\ UNCHANGED <<s, cnt, own, nexth>>   \* nothing to work on
     ELSE
     CASE op \in {"clone", "slice"} /\ ~priv ->
            /\ s' = Run(s, <<C(t, op, me.id, nexth), At("m", t, CloneOrd, cnt + 1), R(t, 0)>>)
            /\ cnt' = cnt + 1 /\ nexth' = nexth + 1
            /\ own' = [own EXCEPT ![t] = Append(@, [id |-> nexth, b |-> 1])] /\ Finish(t)
       [] op = "read" ->
            /\ s' = Run(s, <<C(t, op, me.id, 0), [k |-> "r", t |-> t, b |-> me.b, p |-> IF priv THEN 0 ELSE 8, n |-> 8], R(t, Content(t))>>)
            /\ UNCHANGED <<cnt, own, nexth>> /\ Finish(t)
       [] op = "uniq" /\ ~priv ->
            /\ s' = Run(s, <<C(t, op, me.id, 0), At("l", t, UniqOrd, cnt), R(t, IF cnt = 1 THEN 1 ELSE 0)>>)
            /\ UNCHANGED <<cnt, own, nexth>> /\ Finish(t)
       [] op = "conv" /\ ~priv ->
            /\ s' = Run(s, <<C(t, op, me.id, nexth), R(t, 0)>>)
            /\ own' = [own EXCEPT ![t] = Append(Pop(t), [id |-> nexth, b |-> 1])]
            /\ nexth' = nexth + 1 /\ UNCHANGED cnt /\ Finish(t)
       [] op = "take" /\ ~priv /\ at = 0 ->       \* is it the only one?
            /\ s' = Run(s, <<C(t, op, me.id, nexth), At("l", t, UniqOrd, cnt)>>)
            /\ own' = [own EXCEPT ![t] = Append(Pop(t), [id |-> nexth, b |-> 1])]
            /\ nexth' = nexth + 1 /\ UNCHANGED cnt
            /\ Goto(t, IF cnt = 1 THEN 1 ELSE 2)
       [] op = "take" /\ ~priv /\ at = 1 ->       \* write in place
            /\ s' = Run(s, <<[k |-> "w", t |-> t, b |-> 1, p |-> 8, n |-> 8], R(t, 0)>>)
            /\ UNCHANGED <<cnt, own, nexth>> /\ Finish(t)
       [] op = "take" /\ ~priv /\ at = 2 ->       \* copy
            /\ s' = Run(s, <<[k |-> "a", t |-> t, b |-> Len(s.blk) + 1, n |-> 8, al |-> 1], [k |-> "r", t |-> t, b |-> 1, p |-> 8, n |-> 8],
                             [k |-> "w", t |-> t, b |-> Len(s.blk) + 1, p |-> 0, n |-> 8]>>)
            /\ Goto(t, 3) /\ UNCHANGED <<cnt, own, nexth>>
       [] (op = "drop" /\ ~priv /\ at = 0) \/ (op = "take" /\ at = 3) ->
            LET pre == IF op = "drop" THEN <<C(t, op, me.id, 0)>> ELSE <<>>
                nb == CHOOSE b \in DOMAIN s.blk : b # 1 /\ s.acc[b][1].t = t /\ b \notin s.gone /\ ~ \E k \in DOMAIN own[t] : own[t][k].b = b
                last == cnt = 1
            IN /\ s' = Run(s, pre \o <<At("m", t, DropOrd, cnt - 1)>> \o (IF last THEN <<>> ELSE <<R(t, 0)>>))
               /\ cnt' = cnt - 1 /\ UNCHANGED nexth
               /\ own' = [own EXCEPT ![t] = IF op = "drop" THEN (IF last THEN @ ELSE Pop(t)) ELSE Append(Pop(t), [id |-> me.id, b |-> nb])]
               /\ IF last THEN Goto(t, 4) ELSE Finish(t)
       [] at = 4 ->                               \* give the block back
            /\ s' = Run(s, <<[k |-> "r", t |-> t, b |-> 1, p |-> 0, n |-> 8], [k |-> "f", t |-> t, b |-> 1, n |-> 16, al |-> 4], R(t, 0)>>)
            /\ own' = [own EXCEPT ![t] = IF op = "drop" THEN Pop(t) ELSE @]
            /\ UNCHANGED <<cnt, nexth>> /\ Finish(t)
       [] op = "drop" /\ priv ->
            /\ s' = Run(s, <<C(t, op, me.id, 0), [k |-> "f", t |-> t, b |-> me.b, n |-> 8, al |-> 1], R(t, 0)>>)
            /\ own' = [own EXCEPT ![t] = Pop(t)] /\ UNCHANGED <<cnt, nexth>> /\ Finish(t)
       [] OTHER -> Finish(t) /\ UNCHANGED <<s, cnt, own, nexth>>   \* private storage: nothing shared happens
AllDone == \A t \in {2, 3} : Op(t) = "end"
Next == \E t \in {2, 3} : Step(t)
Spec == Init /\ [][Next]_vars
Safe == s.bad = {} /\ cnt >= 0
NoLeak == AllDone => Done(s) = {}
Script(ty) == [ops |-> <<[op |-> "explore", ty |-> ty, b |-> [k \in 1..24 |-> 64 + k], ref |-> FALSE, progs |-> prog, max |-> 16, seed |-> 1]>>]
Emit == ~ (todo[2].ops = prog[1] /\ todo[3].ops = prog[2] /\ who = 0 /\ Hash(prog[1]) <= Hash(prog[2]))
        \/ \A ty \in Types : PrintT(<<"S", ToJson(Script(ty))>>)
=============================================================================
