------------------------------ MODULE Chunked ------------------------------
(***************************************************************************)
(* The byte queue's algorithms, on a queue seen as its sequence of chunks  *)
(* (module LinkedQueue shows that the linked representation is one).  Each *)
(* operator follows the implementation's steps: popping, cutting and       *)
(* pushing back chunks, walking chunks with offsets carried from one to    *)
(* the next.  Module ChunkedMC checks them against the meaning stated on   *)
(* flat bytes in module Queue.                                             *)
(***************************************************************************)
EXTENDS Bytes, Integers

PB(q, c) == IF c = <<>> THEN q ELSE Append(q, c)
PF(q, c) == IF c = <<>> THEN q ELSE <<c>> \o q
Lst(q) == q[Len(q)]
Frt(q) == SubSeq(q, 1, Len(q) - 1)
BLen(q) == Len(Cat(q))

RECURSIVE Consume(_, _)
Consume(q, n) == IF n = 0 THEN q
   ELSE IF Len(q[1]) > n THEN PF(Tail(q), From(q[1], n)) ELSE Consume(Tail(q), n - Len(q[1]))

RECURSIVE SplitIn(_, _, _)
SplitIn(q, out, remain) ==
  IF q = <<>> THEN <<q, out>>
  ELSE LET c == Lst(q) l == Len(c) IN
       IF l > remain THEN <<PB(Frt(q), To(c, l - remain)), PF(out, From(c, l - remain))>>
       ELSE IF l = remain THEN <<Frt(q), PF(out, c)>> ELSE SplitIn(Frt(q), PF(out, c), remain - l)
SplitOff(q, at) == IF at = 0 THEN <<<<>>, q>> ELSE IF at = BLen(q) THEN <<q, <<>>>> ELSE SplitIn(q, <<>>, BLen(q) - at)

RECURSIVE SliceIn(_, _, _, _)
SliceIn(q, out, st, max) ==
  IF q = <<>> \/ max = 0 THEN out
  ELSE LET c == q[1] l == Len(c) IN
       IF st >= l THEN SliceIn(Tail(q), out, st - l, max)
       ELSE IF st # 0 \/ max < l
            THEN LET s == Sub(c, st, Min2(max + st, l)) IN SliceIn(Tail(q), PB(out, s), 0, max - Len(s))
            ELSE SliceIn(Tail(q), PB(out, c), st, max - l)
SliceQ(q, lo, hi) == IF hi = 0 THEN <<>> ELSE SliceIn(q, <<>>, lo, hi - lo)

RECURSIVE DrainF(_, _)
DrainF(q, end) == IF q = <<>> THEN q
   ELSE LET c == q[1] IN IF Len(c) > end THEN PF(Tail(q), From(c, end))
                         ELSE IF end - Len(c) # 0 THEN DrainF(Tail(q), end - Len(c)) ELSE Tail(q)
RECURSIVE DrainB(_, _)
DrainB(q, st) == IF q = <<>> THEN q
   ELSE LET c == Lst(q) r == Frt(q) IN
        IF BLen(r) < st THEN PB(r, To(c, st - BLen(r))) ELSE IF st # BLen(r) THEN DrainB(r, st) ELSE r
DrainQ(q, lo, hi) ==
  IF lo = hi THEN q ELSE IF lo = 0 THEN DrainF(q, hi) ELSE IF hi = BLen(q) THEN DrainB(q, lo)
  ELSE LET s == SplitOff(q, lo) IN s[1] \o DrainF(s[2], hi - lo)
ReplaceQ(q, lo, hi, c) ==
  IF lo = 0 THEN PF(Consume(q, hi), c)
  ELSE IF hi = BLen(q) THEN PB(DrainQ(q, lo, hi), c)
  ELSE LET s == SplitOff(q, lo) IN PB(s[1], c) \o Consume(s[2], hi - lo)

(* ---- searching ---- *)
RECURSIVE ExistsAt(_, _, _)
ExistsAt(q, ix, d) ==
  IF q = <<>> THEN ix = 0 /\ d = <<>>
  ELSE LET c == q[1] l == Len(c) IN
       IF ix >= l THEN ExistsAt(Tail(q), ix - l, d)
       ELSE IF l - ix >= Len(d) THEN Sub(c, ix, ix + Len(d)) = d
       ELSE IF From(c, ix) # To(d, l - ix) THEN FALSE
       ELSE ExistsAt(Tail(q), 0, From(d, l - ix))
StartsQ(q, d) == Len(d) <= BLen(q) /\ ExistsAt(q, 0, d)
EndsQ(q, d) == Len(d) <= BLen(q) /\ ExistsAt(q, BLen(q) - Len(d), d)

\* <<byte, chunk, offset>>, or none (<<>>)
RECURSIVE ScanIn(_, _, _, _, _)       \* within chunk c: <<found?, off, byte>>
ScanIn(q, d, c, off, byte) ==
  LET p == FirstFrom(c, LAMBDA x : x = d[1], off) IN
  IF p < 0 THEN <<FALSE, off, byte>>
  ELSE IF ExistsAt(q, byte + p - off, d) THEN <<TRUE, p, byte + p - off>>
  ELSE ScanIn(q, d, c, p + 1, byte + p - off + 1)
RECURSIVE FindIn(_, _, _, _, _)       \* k: chunk index, 0-based
FindIn(q, d, k, off, byte) ==
  IF k >= Len(q) THEN <<>>
  ELSE LET c == q[k + 1] l == Len(c) IN
       IF off >= l THEN FindIn(q, d, k + 1, off - l, byte)
       ELSE LET s == ScanIn(q, d, c, off, byte) IN
            IF s[1] THEN <<s[3], k, s[2]>> ELSE FindIn(q, d, k + 1, 0, s[3] + l - s[2])
FindPos(q, d, k, off, byte) ==
  IF d = <<>> THEN (IF byte > BLen(q) THEN <<>> ELSE <<byte, k, off>>) ELSE FindIn(q, d, k, off, byte)
FindSlice(q, d, st) == LET p == FindPos(q, d, 0, st, st) IN IF p = <<>> THEN 0 - 1 ELSE p[1]

(* ---- the splitting iterator ---- *)
Splitter(q, max) == [k |-> 0, off |-> 0, byte |-> 0, max |-> max, done |-> q = <<>>]
RECURSIVE SplitRun(_, _, _, _)
SplitRun(q, d, it, acc) ==
  IF it.done THEN acc
  ELSE IF it.byte = BLen(q) THEN Append(acc, <<>>)
  ELSE IF it.max = 1 THEN Append(acc, SliceQ(q, it.byte, BLen(q)))
  ELSE LET p == FindPos(q, d, it.k, it.off, it.byte) IN
       IF p = <<>> THEN Append(acc, SliceQ(q, it.byte, BLen(q)))
       ELSE SplitRun(q, d, [it EXCEPT !.k = p[2], !.off = p[3] + Len(d), !.byte = p[1] + Len(d), !.max = IF @ # 0 THEN @ - 1 ELSE 0],
                     Append(acc, SliceQ(q, it.byte, p[1])))

(* ---- the borrowing byte iterator ---- *)
BIter(q) == [in |-> q, ch |-> <<>>, off |-> 0, len |-> BLen(q)]
BSkip(it, n) == IF it.off + n >= it.len THEN [it EXCEPT !.ch = <<>>, !.off = 0, !.len = 0] ELSE [it EXCEPT !.off = @ + n]
BTake(it, n) == IF it.len - it.off > n THEN [it EXCEPT !.len = n + it.off] ELSE it
RECURSIVE BFill(_)
BFill(it) == IF Len(it.ch) > it.off THEN [ok |-> TRUE, it |-> it]
   ELSE IF it.in = <<>> THEN [ok |-> FALSE, it |-> it]
   ELSE BFill([in |-> Tail(it.in), ch |-> it.in[1], off |-> it.off - Len(it.ch), len |-> it.len - Len(it.ch)])
BNext(it) == IF it.off >= it.len THEN [it |-> it, v |-> <<>>]
   ELSE LET f == BFill(it) IN IF ~ f.ok THEN [it |-> f.it, v |-> <<>>]
        ELSE [it |-> [f.it EXCEPT !.off = @ + 1], v |-> <<At(f.it.ch, f.it.off)>>]
BLeft(it) == it.len - it.off

(* ---- the owning byte iterator: a queue that is consumed ---- *)
RECURSIVE OSkip(_, _)
OSkip(q, n) == IF q = <<>> THEN q
   ELSE LET c == q[1] IN IF Len(c) < n THEN OSkip(Tail(q), n - Len(c)) ELSE IF Len(c) = n THEN Tail(q) ELSE PF(Tail(q), From(c, n))
RECURSIVE OTake(_, _)
OTake(q, n) == IF BLen(q) <= n THEN q
   ELSE LET r == Frt(q) IN IF BLen(r) >= n THEN OTake(r, n) ELSE PB(r, To(Lst(q), n - BLen(r)))
ONext(q) == IF q = <<>> THEN [it |-> q, v |-> <<>>]
   ELSE [it |-> IF Len(q[1]) > 1 THEN PF(Tail(q), From(q[1], 1)) ELSE Tail(q), v |-> <<q[1][1]>>]
=============================================================================
