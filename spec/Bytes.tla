------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Flat byte strings (sequences of 0..255), ranges over them, UTF-8, and   *)
(* searching: the vocabulary in which every other module states what the   *)
(* library does.  Positions are 0-based byte offsets, as in the library.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Sub(b, lo, hi) == SubSeq(b, lo + 1, hi)          \* bytes at offsets lo..hi-1
From(b, lo)    == SubSeq(b, lo + 1, Len(b))
To(b, hi)      == SubSeq(b, 1, hi)
At(b, i)       == b[i + 1]
Min2(a, b)     == IF a < b THEN a ELSE b
Max2(a, b)     == IF a > b THEN a ELSE b
Cat(ps)        == FlattenSeq(ps)
Rev(b)         == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]

(* A range argument: two bounds <<kind, value>>, kind i(ncluded) / x       *)
(* (excluded) / u(nbounded).  Values above 10^9 stand for huge machine     *)
(* values, so v + 1 of the largest of them is still larger than any length *)
(* - a bound that overflows is simply out of range.                        *)
RLo(g)      == CASE g.s[1] = "i" -> g.s[2] [] g.s[1] = "x" -> g.s[2] + 1 [] OTHER -> 0
RHi(g, n)   == CASE g.e[1] = "i" -> g.e[2] + 1 [] g.e[1] = "x" -> g.e[2] [] OTHER -> n
InRange(g, n) == RLo(g) <= RHi(g, n) /\ RHi(g, n) <= n
(* An overflowing bound (usize::MAX as an inclusive end or exclusive start) *)
(* has RLo/RHi = 2000000001.                                                *)

(***************************************************************************)
(* UTF-8 (Unicode table 3-7).  CLen(b, i): the length of the well-formed   *)
(* sequence starting at offset i, or 0 when there is none.                 *)
(***************************************************************************)
IsCont(x) == x >= 128 /\ x < 192
InR(x, lo, hi) == x >= lo /\ x <= hi
CLen(b, i) ==
  LET n == Len(b) IN
  IF i >= n THEN 0 ELSE
  LET a == At(b, i) IN
  IF a < 128 THEN 1
  ELSE IF a < 194 THEN 0
  ELSE IF a < 224 THEN IF i + 1 < n /\ IsCont(At(b, i + 1)) THEN 2 ELSE 0
  ELSE IF a < 240 THEN
    IF /\ i + 2 < n
       /\ InR(At(b, i + 1), IF a = 224 THEN 160 ELSE 128, IF a = 237 THEN 159 ELSE 191)
       /\ IsCont(At(b, i + 2)) THEN 3 ELSE 0
  ELSE IF a < 245 THEN
    IF /\ i + 3 < n
       /\ InR(At(b, i + 1), IF a = 240 THEN 144 ELSE 128, IF a = 244 THEN 143 ELSE 191)
       /\ IsCont(At(b, i + 2)) /\ IsCont(At(b, i + 3)) THEN 4 ELSE 0
  ELSE 0
(* The scalar value of the well-formed sequence at offset i.               *)
CVal(b, i) ==
  LET l == CLen(b, i) a == At(b, i) IN
  CASE l = 1 -> a
    [] l = 2 -> (a - 192) * 64 + (At(b, i + 1) - 128)
    [] l = 3 -> (a - 224) * 4096 + (At(b, i + 1) - 128) * 64 + (At(b, i + 2) - 128)
    [] l = 4 -> (a - 240) * 262144 + (At(b, i + 1) - 128) * 4096 + (At(b, i + 2) - 128) * 64 + (At(b, i + 3) - 128)
(* Length of the longest well-formed prefix.                               *)
RECURSIVE ValidFrom(_, _)
ValidFrom(b, i) == LET l == CLen(b, i) IN IF l = 0 THEN i ELSE ValidFrom(b, i + l)
ValidUpTo(b) == ValidFrom(b, 0)
Valid8(b) == ValidUpTo(b) = Len(b)
(* Character boundaries of a well-formed string.                           *)
Boundary(b, i) == i <= Len(b) /\ (i = Len(b) \/ ~ IsCont(At(b, i)))
(* <<offset, scalar>> of every character of the well-formed prefix.        *)
RECURSIVE CharsFrom(_, _)
CharsFrom(b, i) == LET l == CLen(b, i) IN
   IF l = 0 THEN <<>> ELSE <<[p |-> i, c |-> CVal(b, i), l |-> l]>> \o CharsFrom(b, i + l)
Chars(b) == CharsFrom(b, 0)
CharVals(b) == LET cs == Chars(b) IN [i \in 1..Len(cs) |-> cs[i].c]
EncC(c) == IF c < 128 THEN <<c>>
   ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
   ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
   ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(***************************************************************************)
(* Searching.  None is -1.                                                 *)
(***************************************************************************)
MatchAt(b, i, nd) == i + Len(nd) <= Len(b) /\ SubSeq(b, i + 1, i + Len(nd)) = nd
RECURSIVE FindFrom(_, _, _)
FindFrom(b, nd, i) == IF i + Len(nd) > Len(b) THEN 0 - 1
                      ELSE IF MatchAt(b, i, nd) THEN i ELSE FindFrom(b, nd, i + 1)
Find(b, nd) == FindFrom(b, nd, 0)
Starts(b, nd) == MatchAt(b, 0, nd)
Ends(b, nd) == Len(nd) <= Len(b) /\ From(b, Len(b) - Len(nd)) = nd
(* First offset whose byte satisfies P, or -1.                             *)
RECURSIVE FirstFrom(_, _, _)
FirstFrom(b, P(_), i) == IF i >= Len(b) THEN 0 - 1 ELSE IF P(At(b, i)) THEN i ELSE FirstFrom(b, P, i + 1)
(* Same over characters of a well-formed string: byte offset or -1.        *)
RECURSIVE FirstCharFrom(_, _, _)
FirstCharFrom(b, P(_), i) == IF i >= Len(b) THEN 0 - 1
     ELSE IF P(CVal(b, i)) THEN i ELSE FirstCharFrom(b, P, i + CLen(b, i))
(* Pieces between occurrences of a non-empty separator; a trailing empty   *)
(* piece is omitted; at most max pieces when max > 0 (the last piece is    *)
(* then the unsplit rest).                                                 *)
RECURSIVE Pieces(_, _, _)
Pieces(b, nd, max) ==
   IF b = <<>> THEN <<>>
   ELSE IF max = 1 THEN <<b>>
   ELSE LET p == Find(b, nd) IN
        IF p < 0 THEN <<b>>
        ELSE <<To(b, p)>> \o Pieces(From(b, p + Len(nd)), nd, IF max = 0 THEN 0 ELSE max - 1)
(* Lexicographic comparison: -1, 0, 1.                                     *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i >= Len(a) THEN (IF i >= Len(b) THEN 0 ELSE 0 - 1)
     ELSE IF i >= Len(b) THEN 1
     ELSE IF At(a, i) < At(b, i) THEN 0 - 1 ELSE IF At(a, i) > At(b, i) THEN 1 ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 0)
(* White space as str::trim understands it (code points used by drivers).  *)
WhiteC(c) == InR(c, 9, 13) \/ c = 32 \/ c = 133 \/ c = 160 \/ c = 5760 \/ InR(c, 8192, 8202)
             \/ c = 8232 \/ c = 8233 \/ c = 8239 \/ c = 8287 \/ c = 12288
RECURSIVE TrimL(_)
TrimL(b) == IF b # <<>> /\ WhiteC(CVal(b, 0)) THEN TrimL(From(b, CLen(b, 0))) ELSE b
RECURSIVE LastStart(_, _)
LastStart(b, i) == IF IsCont(At(b, i)) THEN LastStart(b, i - 1) ELSE i
RECURSIVE TrimR(_)
TrimR(b) == IF b = <<>> THEN b ELSE LET s == LastStart(b, Len(b) - 1) IN
            IF WhiteC(CVal(b, s)) THEN TrimR(To(b, s)) ELSE b
=============================================================================
