------------------------------- MODULE RingMC -------------------------------
(***************************************************************************)
(* The queue of the configuration without an allocator: one ring of N      *)
(* slots, and nothing else.  Every history of pushes and pops against a    *)
(* flat sequence that refuses its N+1st chunk; with Gen, a script per      *)
(* transition for the library, ending in probes of the full and the        *)
(* almost full queue.                                                      *)
(***************************************************************************)
EXTENDS LinkedQueue, Json
CONSTANTS Steps, Gen
VARIABLES d, f, nx, hist
vars == <<d, f, nx, hist>>
New(k) == [op |-> "new", t |-> "bq", d |-> k, how |-> "new", b |-> <<>>, rep |-> 0]
Init == d = [s |-> [i \in 1..N |-> Hole], beg |-> 0, len |-> 0] /\ f = <<>> /\ nx = 1 /\ hist = <<New(1)>>
Bts(x) == [i \in 1..((x % 3) + 1) |-> (x * 7 + i) % 251]
RevS(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* the borrowing iterator over the ring: offset only *)
RingSeq(x) == [k \in 1..x.len |-> Slot(x, (x.beg + k - 1) % N)]
RECURSIVE PushMany(_, _, _)
PushMany(x, xs, b) == IF xs = <<>> THEN x
   ELSE PushMany(IF Full(x) THEN x ELSE IF b THEN RPushB(x, Head(xs)) ELSE RPushF(x, Head(xs)), Tail(xs), b)
RECURSIVE PopMany(_, _, _)
PopMany(x, n, b) == IF n = 0 \/ x.len = 0 THEN x ELSE PopMany(IF b THEN RPopB(x) ELSE RPopF(x), n - 1, b)
Rg(a, b) == [s |-> <<"i", a>>, e |-> <<"x", b>>]
Len1(xs) == FoldLeft(LAMBDA a, x : a + (x % 3) + 1, 0, xs)
(* everything the queue can be asked, at any fill *)
Probe(g) ==
  LET n == Len1(g) IN
  << [op |-> "full", s |-> 1], [op |-> "peek", s |-> 1, how |-> "f"], [op |-> "peek", s |-> 1, how |-> "b"],
     [op |-> "iter", s |-> 1, how |-> "chunks", steps |-> <<<<"len", 0>>, <<"next", 0>>, <<"nth", 1>>, <<"elen", 0>>, <<"rest", 0>>>>],
     [op |-> "iter", s |-> 1, how |-> "chunks", steps |-> <<<<"nth", Len(g)>>, <<"elen", 0>>, <<"next", 0>>>>],
     [op |-> "iter", s |-> 1, how |-> "chunks", steps |-> <<<<"nth", IF g = <<>> THEN 0 ELSE Len(g) - 1>>, <<"elen", 0>>, <<"next", 0>>>>],
     [op |-> "iter", s |-> 1, how |-> "bytes", steps |-> <<<<"skip", n \div 2>>, <<"next", 0>>, <<"rest", 0>>>>],
     [op |-> "iter", s |-> 1, how |-> "ochunks", steps |-> <<<<"nb", 0>>, <<"next", 0>>, <<"elen", 0>>, <<"rest", 0>>>>],
     [op |-> "clone", s |-> 1, d |-> 2] >>
  \o (IF n < 2 THEN <<>> ELSE
     <<[op |-> "replace", s |-> 2, rg |-> Rg(n \div 2, n \div 2), b |-> <<1, 2>>, rep |-> 0], [op |-> "drop", s |-> 2],
       [op |-> "clone", s |-> 1, d |-> 2], [op |-> "drain", s |-> 2, rg |-> Rg(1, n \div 2), steps |-> <<<<"rest", 0>>>>], [op |-> "drop", s |-> 2],
       [op |-> "clone", s |-> 1, d |-> 2], [op |-> "splitoff", s |-> 2, d |-> 3, m |-> n \div 2], [op |-> "append", s |-> 2, d |-> 3],
       [op |-> "drop", s |-> 2], [op |-> "clone", s |-> 1, d |-> 2],
       [op |-> "slice", s |-> 2, d |-> 3, rg |-> Rg(1, n - 1)], [op |-> "append", s |-> 2, d |-> 3]>>)
  \o <<[op |-> "push", s |-> 1, how |-> "f", b |-> <<7>>, rep |-> 0], [op |-> "push", s |-> 1, how |-> "b", b |-> <<8, 9>>, rep |-> 0], [op |-> "full", s |-> 1],
       [op |-> "extend", s |-> 1, how |-> "slice", parts |-> <<<<1>>, <<>>, <<2>>>>, rep |-> 0], [op |-> "pop", s |-> 1, how |-> "b"], [op |-> "pop", s |-> 1, how |-> "f"]>>
Did(ops, g) == hist' = (IF Gen THEN hist \o ops ELSE hist) /\ (Gen => PrintT(<<"S", ToJsonObject([ops |-> hist \o ops \o Probe(g)])>>))
Push(n, b) ==
  LET xs == [i \in 1..n |-> nx + i - 1]
      fit == SubSeq(xs, 1, IF n < N - Len(f) THEN n ELSE N - Len(f))
      g == IF b THEN f \o fit ELSE RevS(fit) \o f
  IN /\ d' = PushMany(d, xs, b) /\ f' = g /\ nx' = nx + n
     /\ Did([i \in 1..n |-> [op |-> "push", s |-> 1, how |-> IF b THEN "b" ELSE "f", b |-> Bts(xs[i]), rep |-> 0]], g)
Pop(n, b) ==
  LET k == IF n < Len(f) THEN n ELSE Len(f)
      g == IF b THEN SubSeq(f, 1, Len(f) - k) ELSE SubSeq(f, k + 1, Len(f))
  IN /\ d' = PopMany(d, n, b) /\ f' = g /\ nx' = nx
     /\ Did([i \in 1..n |-> [op |-> "pop", s |-> 1, how |-> IF b THEN "b" ELSE "f"]], g)
Next == \E n \in Steps, b \in BOOLEAN : Push(n, b) \/ Pop(n, b)
Spec == Init /\ [][Next]_vars
Refines == /\ RingSeq(d) = f /\ d.len <= N
           /\ \A i \in 1..N : (d.s[i] # Hole) <=> (((i - 1 + N - d.beg) % N) < d.len)
View == <<d.beg, d.len>>
CB(b) == IF b \in {0, 1, N - 2, N - 1} THEN b ELSE 2
CL(n) == IF n <= 1 \/ n >= N - 2 THEN n ELSE 2
GView == <<CB(d.beg), CL(d.len), d.beg + d.len > N, d.beg + d.len = N>>
=============================================================================
