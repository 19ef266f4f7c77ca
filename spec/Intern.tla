------------------------------- MODULE Intern ------------------------------
(***************************************************************************)
(* Interners.  An interner slot refers to a map (a group: clones share it) *)
(* and carries its own length limit.  A map relates contents to the        *)
(* storage that represents them.  Interning equal content while an entry   *)
(* is kept returns the entry's storage; values handed out keep their       *)
(* content whatever happens to the interner.                               *)
(***************************************************************************)
EXTENDS Bytes, Integers, FiniteSets

NI == 3
NV == 5
Inline == 14
HasF(e, f) == f \in DOMAIN e
NoI == [g |-> 0, mx |-> 0]
NoV == [t |-> "no", b |-> <<>>]

Entry(M, g, b) == {x[3] : x \in {y \in M : y[1] = g /\ y[2] = b}}    \* at most one storage
Drop(M, g) == {y \in M : y[1] # g}

(* One call on a map that holds `cur` ({} or {storage}) for content b:     *)
(* whether the outcome is right, and what the map holds afterwards.        *)
CallOk(how, b, mx, cur, kind, content, sid) ==
  CASE content # b -> FALSE
    [] how = "intern" /\ Len(b) <= Inline -> kind = "ok"
    [] how = "intern" /\ Len(b) > mx -> kind = "err"
    [] how = "get" -> IF cur = {} THEN kind = "err" ELSE kind = "ok" /\ cur = {sid}
    [] OTHER -> kind = "ok" /\ (cur = {} \/ cur = {sid})
CallNext(how, b, mx, cur, sid) ==
  IF how = "get" \/ (how = "intern" /\ (Len(b) <= Inline \/ Len(b) > mx)) THEN cur
  ELSE IF cur = {} THEN {sid} ELSE cur

(* Linearizability of the calls on one content, started from `cur`: there  *)
(* is an order of the calls that respects their real-time order and in     *)
(* which every outcome is right.  (Clearing removes entries one by one, so *)
(* it is an operation on every content separately.)                        *)
RECURSIVE Lin(_, _, _, _)
Lin(ops, todo, cur, mx) ==
  \/ todo = {}
  \/ \E o \in todo :
       /\ \A p \in todo : ~ (ops[p].ret < ops[o].call)
       /\ IF ops[o].how = "clear" THEN Lin(ops, todo \ {o}, {}, mx)
          ELSE /\ CallOk(ops[o].how, ops[o].b, mx, cur, ops[o].kind, ops[o].content, ops[o].sid)
               /\ Lin(ops, todo \ {o}, CallNext(ops[o].how, ops[o].b, mx, cur, ops[o].sid), mx)
LinOk(ops, cur, mx) == Lin(ops, DOMAIN ops, cur, mx)

(* The calls of a concurrent phase as one sequence of records.             *)
ConcOps(e) == FlattenSeq([t \in DOMAIN e.thr |-> [k \in DOMAIN e.thr[t].ops |->
     LET o == e.thr[t].ops[k] v == e.r.v.thr[t][k] IN
     [how |-> o.how, b |-> IF HasF(o, "b") THEN o.b ELSE <<>>, call |-> v[1], ret |-> v[2], kind |-> v[3], content |-> v[4], late |-> v[5], sid |-> v[6]]]])
ConcOk(e, M, it) ==
  LET ops == ConcOps(e)
      far == 1000000
      probe(p) == [how |-> "get", b |-> p[1], call |-> far, ret |-> far + 1, kind |-> p[2], content |-> p[3], late |-> p[3], sid |-> p[4]]
  IN /\ \A k \in DOMAIN ops : ops[k].late = ops[k].content
     /\ \A j \in DOMAIN e.r.v.probe : LET p == e.r.v.probe[j] IN
          LinOk(Append(SelectSeq(ops, LAMBDA o : o.how = "clear" \/ o.b = p[1]), probe(p)), Entry(M, it.g, p[1]), it.mx)
ConcNext(e, M, it) ==
  LET cleared == \E k \in DOMAIN ConcOps(e) : ConcOps(e)[k].how = "clear"
      keys == {e.r.v.probe[j][1] : j \in DOMAIN e.r.v.probe}
      kept == {y \in M : ~ (y[1] = it.g /\ (cleared \/ y[2] \in keys))}
      now == {<<it.g, e.r.v.probe[j][1], e.r.v.probe[j][4]>> : j \in {j \in DOMAIN e.r.v.probe : e.r.v.probe[j][2] = "ok"}}
  IN kept \cup now

Res(ok, I, M, V) == [ok |-> ok, I |-> I, M |-> M, V |-> V]
(* I: interner slots, M: entries <<group, content, storage>>, V: values,   *)
(* fresh: a group number not used so far.                                  *)
Outcome(I, M, V, e, fresh) ==
  LET is(k) == e.r.k = k IN
  CASE e.op = "inew" -> Res(is("ok"), [I EXCEPT ![e.d] = [g |-> fresh, mx |-> e.m]], M, V)
    [] e.op = "iclone" -> Res(is("ok"), [I EXCEPT ![e.d] = I[e.s]], M, V)
    [] e.op = "iclear" -> Res(is("ok"), I, Drop(M, I[e.s].g), V)
    [] e.op = "idrop" -> LET J == [I EXCEPT ![e.s] = NoI] g == I[e.s].g IN
                         Res(is("ok"), J, IF \E k \in 1..NI : J[k].g = g THEN M ELSE Drop(M, g), V)
    [] e.op = "idebug" -> Res(is("ok"), I, M, V)
    [] e.op = "intern" ->
         LET it == I[e.s]  cur == Entry(M, it.g, e.b)
             c == e.r.v[1]  sid == e.r.v[2]
             nx == CallNext(e.how, e.b, it.mx, cur, sid)
         IN Res(CallOk(e.how, e.b, it.mx, cur, e.r.k, c, sid), I,
                IF nx = cur THEN M ELSE M \cup {<<it.g, e.b, sid>>},
                [V EXCEPT ![e.d] = IF e.r.k = "ok" THEN [t |-> e.t, b |-> e.b] ELSE NoV])
    [] e.op = "vdrop" -> Res(is("ok"), I, M, [V EXCEPT ![e.s] = NoV])
    [] e.op = "conc" -> IF is("ok") THEN Res(ConcOk(e, M, I[e.s]), I, ConcNext(e, M, I[e.s]), V) ELSE Res(FALSE, I, M, V)
    [] e.op = "finish" -> Res(is("ok"), [k \in 1..NI |-> NoI], {}, [k \in 1..NV |-> NoV])
    [] OTHER -> Res(FALSE, I, M, V)
=============================================================================
