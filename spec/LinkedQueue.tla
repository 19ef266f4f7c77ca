---------------------------- MODULE LinkedQueue ----------------------------
(***************************************************************************)
(* How a queue keeps its chunks: a root with an inline slot for a first    *)
(* chunk (the chamber), and a doubly linked list of heap nodes, each a     *)
(* ring buffer of N slots.  Written at the level of the implementation's   *)
(* reads and writes of pointers and slots: following a pointer to a freed  *)
(* node, or reading a slot that holds nothing, is an error of the model    *)
(* (a function applied outside its domain), and the flat view below is     *)
(* what every operation has to preserve.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT N                          \* slots of a node
Null == 0
Hole == 0 - 1                       \* an empty slot, the empty chunk

(* ---- one node's ring ---- *)
RPushB(d, x) == [d EXCEPT !.s[((d.beg + d.len) % N) + 1] = x, !.len = @ + 1]
RPushF(d, x) == LET i == (d.beg + N - 1) % N IN [d EXCEPT !.s[i + 1] = x, !.beg = i, !.len = @ + 1]
Slot(d, i) == IF d.s[i + 1] = Hole THEN Assert(FALSE, "read of an empty slot") ELSE d.s[i + 1]
RBack(d) == Slot(d, (d.beg + d.len - 1) % N)
RFront(d) == Slot(d, d.beg)
RPopB(d) == [d EXCEPT !.len = @ - 1, !.s[((d.beg + d.len - 1) % N) + 1] = Hole]
RPopF(d) == [d EXCEPT !.len = @ - 1, !.beg = (d.beg + 1) % N, !.s[d.beg + 1] = Hole]
Leaf(x) == [s |-> [i \in 1..N |-> IF i = 1 THEN x ELSE Hole], beg |-> 0, len |-> 1, prev |-> Null, next |-> Null]
Full(d) == d.len >= N

(* ---- the heap of nodes: a function from the ids in use ---- *)
NewId(H) == CHOOSE i \in 1..(Cardinality(DOMAIN H) + 1) : i \notin DOMAIN H
Put(H, i, d) == [j \in DOMAIN H \cup {i} |-> IF j = i THEN d ELSE H[j]]
Free(H, i) == IF i \in DOMAIN H THEN [j \in DOMAIN H \ {i} |-> H[j]] ELSE Assert(FALSE, "node freed twice")
Deref(H, i) == IF i \in DOMAIN H THEN H[i] ELSE Assert(FALSE, "freed node used")

Root == [ch |-> Hole, first |-> Null, last |-> Null, count |-> 0]
R(h, r, v) == [h |-> h, r |-> r, v |-> v]        \* heap, root, result (Hole: none)

PushBackAlloc(H, r, x) ==
  LET i == NewId(H) IN
  IF r.last # Null
  THEN R(Put(Put(H, r.last, [Deref(H, r.last) EXCEPT !.next = i]), i, [Leaf(x) EXCEPT !.prev = r.last]),
         [r EXCEPT !.last = i, !.count = @ + 1], Hole)
  ELSE R(Put(H, i, Leaf(x)), [r EXCEPT !.first = i, !.last = i, !.count = @ + 1], Hole)
PushFrontAlloc(H, r, x) ==
  LET i == NewId(H) IN
  IF r.first # Null
  THEN R(Put(Put(H, r.first, [Deref(H, r.first) EXCEPT !.prev = i]), i, [Leaf(x) EXCEPT !.next = r.first]),
         [r EXCEPT !.first = i, !.count = @ + 1], Hole)
  ELSE R(Put(H, i, Leaf(x)), [r EXCEPT !.first = i, !.last = i, !.count = @ + 1], Hole)

PushBack(H, r, x) ==
  IF x = Hole THEN R(H, r, Hole)
  ELSE IF r.count = 0 THEN R(H, [r EXCEPT !.ch = x, !.count = 1], Hole)
  ELSE IF r.last # Null /\ ~ Full(Deref(H, r.last))
       THEN R(Put(H, r.last, RPushB(Deref(H, r.last), x)), [r EXCEPT !.count = @ + 1], Hole)
       ELSE PushBackAlloc(H, r, x)
PushFront(H, r, x) ==
  IF x = Hole THEN R(H, r, Hole)
  ELSE LET r1 == [r EXCEPT !.ch = x]  y == r.ch IN
       IF y = Hole THEN R(H, [r1 EXCEPT !.count = @ + 1], Hole)
       ELSE IF r.first # Null /\ ~ Full(Deref(H, r.first))
            THEN R(Put(H, r.first, RPushF(Deref(H, r.first), y)), [r1 EXCEPT !.count = @ + 1], Hole)
            ELSE PushFrontAlloc(H, r1, y)
PopBack(H, r) ==
  IF r.count = 1 /\ r.ch # Hole THEN R(H, [r EXCEPT !.ch = Hole, !.count = 0], r.ch)
  ELSE IF r.last = Null THEN R(H, r, Hole)
  ELSE LET d == Deref(H, r.last) IN
       IF d.len = 0 THEN R(H, r, Hole)
       ELSE LET d2 == RPopB(d)  H2 == Put(H, r.last, d2)  r2 == [r EXCEPT !.count = @ - 1] IN
            IF d2.len = 0 /\ d2.prev # Null
            THEN R(Free(Put(H2, d2.prev, [Deref(H2, d2.prev) EXCEPT !.next = Null]), r.last), [r2 EXCEPT !.last = d2.prev], RBack(d))
            ELSE R(H2, r2, RBack(d))
PopFront(H, r) ==
  IF r.count = 0 THEN R(H, r, Hole)
  ELSE IF r.ch # Hole THEN R(H, [r EXCEPT !.ch = Hole, !.count = @ - 1], r.ch)
  ELSE IF r.first = Null THEN R(H, r, Hole)
  ELSE LET d == Deref(H, r.first) IN
       IF d.len = 0 THEN R(H, r, Hole)
       ELSE LET d2 == RPopF(d)  H2 == Put(H, r.first, d2)  r2 == [r EXCEPT !.count = @ - 1] IN
            IF d2.len = 0 /\ d2.next # Null
            THEN R(Free(Put(H2, d2.next, [Deref(H2, d2.next) EXCEPT !.prev = Null]), r.first), [r2 EXCEPT !.first = d2.next], RFront(d))
            ELSE R(H2, r2, RFront(d))
QFront(H, r) == IF r.count = 0 THEN Hole ELSE IF r.ch # Hole THEN r.ch
               ELSE IF r.first # Null /\ Deref(H, r.first).len > 0 THEN RFront(Deref(H, r.first)) ELSE Hole
QBack(H, r) == IF r.last # Null /\ Deref(H, r.last).len > 0 THEN RBack(Deref(H, r.last)) ELSE r.ch

RECURSIVE FreeList(_, _)
FreeList(H, i) == IF i = Null THEN H ELSE LET d == Deref(H, i) IN FreeList(Free(H, i), d.next)
Drop(H, r) == FreeList(H, r.first)

Append2(H, r, o) ==
  IF o.count = 0 THEN R(Drop(H, o), r, Hole)
  ELSE IF r.count = 0 THEN R(Drop(H, r), o, Hole)
  ELSE IF r.count = 1 /\ r.ch # Hole
       THEN LET p == PushFront(H, o, r.ch) IN R(Drop(p.h, r), p.r, Hole)
  ELSE
    LET moved == o.ch # Hole
        room  == moved /\ o.first # Null /\ ~ Full(Deref(H, o.first))
        pb    == PushBack(H, r, o.ch)
        H1 == IF ~ moved THEN H ELSE IF room THEN Put(H, o.first, RPushF(Deref(H, o.first), o.ch)) ELSE pb.h
        r1 == IF moved /\ ~ room THEN pb.r ELSE r
        o1 == IF ~ moved THEN o ELSE [o EXCEPT !.ch = Hole, !.count = IF room THEN @ ELSE @ - 1]
    IN IF o1.count = 0 THEN R(Drop(H1, o1), r1, Hole)
       ELSE IF r1.last # Null
            THEN IF o1.first = Null THEN Assert(FALSE, "invalid state at append")
                 ELSE LET H2 == Put(H1, r1.last, [Deref(H1, r1.last) EXCEPT !.next = o1.first])
                          H3 == Put(H2, o1.first, [Deref(H2, o1.first) EXCEPT !.prev = r1.last])
                      IN R(H3, [r1 EXCEPT !.last = o1.last, !.count = @ + o1.count], Hole)
            ELSE R(H1, [r1 EXCEPT !.first = o1.first, !.last = o1.last, !.count = @ + o1.count], Hole)

(* ---- the flat view, and what must hold of every reachable structure ---- *)
Ring(d) == [k \in 1..d.len |-> Slot(d, (d.beg + k - 1) % N)]
RECURSIVE Fwd(_, _)
Fwd(H, i) == IF i = Null THEN <<>> ELSE <<i>> \o Fwd(H, Deref(H, i).next)
RECURSIVE Bwd(_, _)
Bwd(H, i) == IF i = Null THEN <<>> ELSE Bwd(H, Deref(H, i).prev) \o <<i>>
Flat(H, r) == (IF r.ch = Hole THEN <<>> ELSE <<r.ch>>) \o FlattenSeq([k \in 1..Len(Fwd(H, r.first)) |-> Ring(H[Fwd(H, r.first)[k]])])
WellFormed(H, r) ==
  LET f == Fwd(H, r.first) IN
  /\ f = Bwd(H, r.last)
  /\ r.count = Len(Flat(H, r))
  /\ \A k \in DOMAIN f : H[f[k]].len = 0 => Len(f) = 1
  /\ \A k \in DOMAIN f : \A i \in 1..N : (H[f[k]].s[i] # Hole) <=> (((i - 1 + N - H[f[k]].beg) % N) < H[f[k]].len)
Nodes(H, r) == {Fwd(H, r.first)[k] : k \in DOMAIN Fwd(H, r.first)}

(* ---- the borrowing chunk iterator: chamber, node, offset in the node ---- *)
LIter(r) == [ch |-> r.ch, node |-> r.first, off |-> 0]
RECURSIVE LTail(_, _)
LTail(H, i) == IF i = Null THEN 0 ELSE Deref(H, i).len + LTail(H, Deref(H, i).next)
LLen(H, it) == IF it.node = Null THEN (IF it.ch # Hole THEN 1 ELSE 0)
               ELSE Deref(H, it.node).len - it.off + LTail(H, Deref(H, it.node).next) + (IF it.ch # Hole THEN 1 ELSE 0)
RECURSIVE LNext(_, _)
LNext(H, it) ==
  IF it.ch # Hole THEN [it |-> [it EXCEPT !.ch = Hole], v |-> it.ch]
  ELSE IF it.node = Null THEN [it |-> it, v |-> Hole]
  ELSE LET d == Deref(H, it.node) IN
       IF it.off < d.len THEN [it |-> [it EXCEPT !.off = @ + 1], v |-> Slot(d, (d.beg + it.off) % N)]
       ELSE LNext(H, [it EXCEPT !.node = d.next, !.off = 0])
RECURSIVE LSkipIn(_, _, _)
LSkipIn(H, it, n) ==
  IF n = 0 \/ it.node = Null THEN it
  ELSE LET d == Deref(H, it.node) IN
       IF it.off = d.len THEN LSkipIn(H, [it EXCEPT !.node = d.next, !.off = 0], n)
       ELSE LET k == IF n < d.len - it.off THEN n ELSE d.len - it.off IN LSkipIn(H, [it EXCEPT !.off = @ + k], n - k)
LSkip(H, it, n) == IF n = 0 THEN it ELSE IF it.ch # Hole THEN LSkipIn(H, [it EXCEPT !.ch = Hole], n - 1) ELSE LSkipIn(H, it, n)
=============================================================================
