------------------------------ MODULE LinkedMC ------------------------------
(***************************************************************************)
(* Every history of two linked queues within the bounds, against two flat  *)
(* sequences.  Items are numbered in the order they are pushed; the rules  *)
(* never look at them, so states that differ only in the numbers are one   *)
(* (View).  With Gen, every transition is also printed as a script of      *)
(* calls for the library, ending in probes of both queues.                 *)
(***************************************************************************)
EXTENDS LinkedQueue, Json
CONSTANTS MaxNodes, MaxItems, Steps, Gen
VARIABLES H, q, f, nx, hist
vars == <<H, q, f, nx, hist>>

Init == /\ H = <<>> /\ q = [k \in 1..2 |-> Root] /\ f = [k \in 1..2 |-> <<>>] /\ nx = 1
        /\ hist = <<[op |-> "new", t |-> "bq", d |-> 1, how |-> "new", b |-> <<>>, rep |-> 0], [op |-> "new", t |-> "bq", d |-> 2, how |-> "new", b |-> <<>>, rep |-> 0]>>

(* a chunk's bytes: its number, and a length that varies with it *)
Bts(x) == [i \in 1..((x % 3) + 1) |-> (x * 7 + i) % 251]
Items(x, n) == [i \in 1..n |-> x + i - 1]
RECURSIVE Many(_, _, _, _)
Many(h, r, xs, b) == IF xs = <<>> THEN R(h, r, Hole)
   ELSE LET p == IF b THEN PushBack(h, r, Head(xs)) ELSE PushFront(h, r, Head(xs)) IN Many(p.h, p.r, Tail(xs), b)
RECURSIVE PopMany(_, _, _, _, _)
PopMany(h, r, n, b, acc) == IF n = 0 THEN [h |-> h, r |-> r, v |-> acc]
   ELSE LET p == IF b THEN PopBack(h, r) ELSE PopFront(h, r) IN PopMany(p.h, p.r, n - 1, b, Append(acc, p.v))
OpPush(k, x, b) == [op |-> "push", s |-> k, how |-> IF b THEN "b" ELSE "f", b |-> Bts(x), rep |-> x % 8]
OpPop(k, b) == [op |-> "pop", s |-> k, how |-> IF b THEN "b" ELSE "f"]
RevS(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Probe(k) == << [op |-> "peek", s |-> k, how |-> "f"], [op |-> "peek", s |-> k, how |-> "b"],
   [op |-> "iter", s |-> k, how |-> "chunks", steps |-> <<<<"len", 0>>, <<"next", 0>>, <<"nth", 1>>, <<"elen", 0>>, <<"rest", 0>>>>],
   [op |-> "iter", s |-> k, how |-> "chunks", steps |-> <<<<"nth", N - 1>>, <<"elen", 0>>, <<"next", 0>>, <<"last", 0>>>>],
   [op |-> "iter", s |-> k, how |-> "ochunks", steps |-> <<<<"nb", 0>>, <<"next", 0>>, <<"elen", 0>>, <<"rev", 0>>>>],
   [op |-> "iter", s |-> k, how |-> "bytes", steps |-> <<<<"skip", N + 2>>, <<"next", 0>>, <<"rest", 0>>>>],
   [op |-> "pop", s |-> k, how |-> "b"], [op |-> "pop", s |-> k, how |-> "f"] >>
Emit(ops) == Gen => PrintT(<<"S", ToJsonObject([ops |-> hist \o ops \o Probe(1) \o Probe(2)])>>)
Did(ops) == hist' = (IF Gen THEN hist \o ops ELSE hist) /\ Emit(ops)

Push(k, n, b) ==
  /\ Len(f[k]) + n <= MaxItems
  /\ LET xs == Items(nx, n)  p == Many(H, q[k], xs, b) IN
     /\ Cardinality(DOMAIN p.h) <= MaxNodes
     /\ H' = p.h /\ q' = [q EXCEPT ![k] = p.r]
     /\ f' = [f EXCEPT ![k] = IF b THEN @ \o xs ELSE RevS(xs) \o @]
     /\ nx' = nx + n
     /\ Did(IF b /\ n > 1 THEN <<[op |-> "extend", s |-> k, how |-> "bd", parts |-> [i \in 1..n |-> Bts(xs[i])], rep |-> nx % 8]>>
            ELSE [i \in 1..n |-> OpPush(k, xs[i], b)])
Pop(k, n, b) ==
  /\ n <= Len(f[k]) \/ n = 1
  /\ LET p == PopMany(H, q[k], n, b, <<>>)
         l == Len(f[k])
         want == IF l = 0 THEN <<Hole>> ELSE IF b THEN RevS(SubSeq(f[k], l - n + 1, l)) ELSE SubSeq(f[k], 1, n) IN
     /\ Assert(p.v = want, <<"pop gave", p.v, "instead of", want>>)
     /\ H' = p.h /\ q' = [q EXCEPT ![k] = p.r]
     /\ f' = [f EXCEPT ![k] = IF l = 0 THEN @ ELSE IF b THEN SubSeq(@, 1, l - n) ELSE SubSeq(@, n + 1, l)]
     /\ nx' = nx
     /\ Did([i \in 1..n |-> OpPop(k, b)])
App ==
  /\ Len(f[1]) + Len(f[2]) <= MaxItems
  /\ LET p == Append2(H, q[1], q[2]) IN
     H' = p.h /\ q' = <<p.r, Root>>
  /\ f' = <<f[1] \o f[2], <<>>>> /\ nx' = nx
  /\ Did(<<[op |-> "append", s |-> 1, d |-> 2], [op |-> "new", t |-> "bq", d |-> 2, how |-> "new", b |-> <<>>, rep |-> 0]>>)
Swap ==  \* the second queue becomes the first (one is enough to build both)
  /\ f[1] # <<>> /\ f[2] = <<>>
  /\ q' = <<q[2], q[1]>> /\ f' = <<f[2], f[1]>> /\ UNCHANGED <<H, nx>>
  /\ Did(<<[op |-> "append", s |-> 2, d |-> 1], [op |-> "new", t |-> "bq", d |-> 1, how |-> "new", b |-> <<>>, rep |-> 0]>>)
Clear(k) ==
  /\ H' = Drop(H, q[k]) /\ q' = [q EXCEPT ![k] = Root] /\ f' = [f EXCEPT ![k] = <<>>] /\ nx' = nx
  /\ Did(<<[op |-> "drop", s |-> k], [op |-> "new", t |-> "bq", d |-> k, how |-> "new", b |-> <<>>, rep |-> 0]>>)
Clone ==  \* a clone is built by pushing every chunk of the original
  /\ Len(f[1]) > 0 /\ f[2] = <<>>
  /\ LET p == Many(Drop(H, q[2]), Root, Flat(H, q[1]), TRUE) IN
     /\ Cardinality(DOMAIN p.h) <= MaxNodes
     /\ H' = p.h /\ q' = [q EXCEPT ![2] = p.r]
  /\ f' = [f EXCEPT ![2] = f[1]] /\ nx' = nx
  /\ Did(<<[op |-> "drop", s |-> 2], [op |-> "clone", s |-> 1, d |-> 2]>>)

Next == \/ \E n \in Steps, b \in BOOLEAN : Push(1, n, b) \/ Pop(1, n, b)
        \/ App \/ Swap \/ Clone \/ \E k \in 1..2 : Clear(k)
Spec == Init /\ [][Next]_vars

(* ---- refinement of two flat sequences ---- *)
Refines == \A k \in 1..2 : /\ WellFormed(H, q[k]) /\ Flat(H, q[k]) = f[k]
                           /\ QFront(H, q[k]) = (IF f[k] = <<>> THEN Hole ELSE f[k][1])
                           /\ QBack(H, q[k]) = (IF f[k] = <<>> THEN Hole ELSE f[k][Len(f[k])])
NoSharing == Nodes(H, q[1]) \cap Nodes(H, q[2]) = {}
NoLeak == DOMAIN H = Nodes(H, q[1]) \cup Nodes(H, q[2])
(* the borrowing iterator, skipped by any amount from any position, is the flat sequence *)
RECURSIVE Drain(_, _, _)
Drain(h, it, acc) == LET n == LNext(h, it) IN IF n.v = Hole THEN acc ELSE Drain(h, n.it, Append(acc, n.v))
RECURSIVE Adv(_, _, _)
Adv(h, it, n) == IF n = 0 THEN it ELSE Adv(h, LNext(h, it).it, n - 1)
IterRefines == \A k \in 1..2 : \A a \in 0..Len(f[k]) : \A s \in 0..(Len(f[k]) - a + 1) :
   LET it == LSkip(H, Adv(H, LIter(q[k]), a), s)  left == IF a + s >= Len(f[k]) THEN <<>> ELSE SubSeq(f[k], a + s + 1, Len(f[k])) IN
   /\ Drain(H, it, <<>>) = left /\ LLen(H, it) = Len(left)

(* ---- states that differ only in item numbers are the same ---- *)
Cls(d) == <<d.beg, d.len>>
Shape(k) == LET s == Fwd(H, q[k].first) IN <<q[k].ch = Hole, [i \in DOMAIN s |-> Cls(H[s[i]])]>>
View == <<Shape(1), Shape(2)>>
(* coarser, to generate tests for the real node size *)
CB(b) == CASE b = 0 -> 0 [] b = N - 1 -> 3 [] OTHER -> 1
CL(n) == CASE n = 0 -> 0 [] n = 1 -> 1 [] n = N - 1 -> 3 [] n = N -> 4 [] OTHER -> 2
CCls(d) == <<CB(d.beg), CL(d.len), d.beg + d.len > N>>
CShape(k) == LET s == Fwd(H, q[k].first) IN
   <<q[k].ch = Hole, Len(s),
     IF k = 1 /\ Len(s) <= 2 THEN [i \in DOMAIN s |-> CCls(H[s[i]])]
     ELSE IF Len(s) = 0 THEN <<>> ELSE <<Full(H[s[1]]), Full(H[s[Len(s)]])>> >>
GView == <<CShape(1), CShape(2)>>
=============================================================================
