----------------------------- MODULE ChunkedMC -----------------------------
(***************************************************************************)
(* Small scope, complete: every way to cut every small content into        *)
(* chunks, every operation with every argument.  The algorithm (Chunked)   *)
(* must do what module Queue states on the flat bytes.  Emit prints, for   *)
(* every starting state, a script that performs the same operations on the *)
(* library, on queues built in several ways and of several kinds of        *)
(* chunks.                                                                 *)
(***************************************************************************)
EXTENDS Chunked, Queue, TLC, Json
CONSTANTS MaxLen,       \* longest content
          Alpha,     \* alphabet: {} for distinct bytes; characters (as byte strings) in text mode
          Mode,      \* "range", "search", "iter", "io"
          Type,      \* "bq" or "sq"
          Depth,     \* steps of an iterator script
          Alloc,     \* the library has an allocator (some conversions need one)
      Gen
VARIABLES q, op, ans
vars == <<q, op, ans>>

(* ---- contents and cuttings ---- *)
AlphaOf(k) == CASE k = "two" -> {<<97>>, <<98>>}
                [] k = "text" -> {<<97>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>}
                [] k = "text2" -> {<<97>>, <<195, 169>>, <<195, 168>>}
                [] k = "lines" -> {<<97>>, <<10>>, <<195>>, <<169>>}
                [] OTHER -> {}
Units == IF Alpha = "distinct" THEN {[i \in 1..k |-> <<96 + i>>] : k \in 0..MaxLen} ELSE UNION {[1..k -> AlphaOf(Alpha)] : k \in 0..MaxLen}
(* a set of cut positions, in units, gives the chunks *)
RECURSIVE Cut(_, _)
Cut(us, c) ==      \* c[i]: a cut after unit i
  IF us = <<>> THEN <<>>
  ELSE LET e == CHOOSE i \in 1..Len(us) : (i = Len(us) \/ c[i]) /\ \A j \in 1..i - 1 : ~ c[j]
       IN <<Cat(SubSeq(us, 1, e))>> \o Cut(SubSeq(us, e + 1, Len(us)), SubSeq(c, e + 1, Len(c)))
Cuttings == UNION {{Cut(us, c) : c \in [1..Max2(0, Len(us) - 1) -> BOOLEAN]} : us \in Units}

(* ---- the operations ---- *)
Big == 2000000000
Rg(sk, sv, ek, ev) == [s |-> <<sk, sv>>, e |-> <<ek, ev>>]
Ranges(k) == {Rg("i", a, "x", b) : a \in 0..k + 1, b \in 0..k + 1}
OddRanges(k) == {Rg("i", a, "i", b) : a \in {0, 1}, b \in {0, k, Max2(k, 1) - 1}} \cup {Rg("x", a, "u", 0) : a \in {0, k, Big}}
           \cup {Rg("u", 0, "x", k), Rg("u", 0, "i", Big), Rg("i", Big, "u", 0), Rg("x", Big, "x", 0), Rg("u", 0, "u", 0), Rg("i", k, "x", Big), Rg("u", 0, "x", Big)}
SomeSteps == {<<<<"rest", 0>>>>, <<>>, <<<<"next", 0>>>>, <<<<"nth", 1>>, <<"len", 0>>, <<"last", 0>>>>}
Set(k) == IF Type = "sq" THEN {<<97>>, <<97, 233>>} ELSE {<<97>>, <<97, 98, 99>>}
RangeOps(k) ==
     {[op |-> "splitoff", s |-> 2, d |-> 3, m |-> m] : m \in 0..k + 1}
\cup {[op |-> "drain", s |-> 2, rg |-> g, steps |-> <<<<"rest", 0>>>>] : g \in Ranges(k) \cup OddRanges(k)}
\cup {[op |-> "drain", s |-> 2, rg |-> Rg("i", a, "x", b), steps |-> st] : a \in {0, 1}, b \in {1, k - 1}, st \in SomeSteps}
\cup {[op |-> "replace", s |-> 2, rg |-> g, b |-> c, rep |-> 1] : g \in Ranges(k), c \in {<<>>, <<120, 121>>}}
\cup {[op |-> "slice", s |-> 2, d |-> 3, rg |-> g] : g \in Ranges(k) \cup OddRanges(k)}
\cup {[op |-> "twhile", s |-> 2, d |-> 3, set |-> w] : w \in Set(k)}
\cup {[op |-> "pop", s |-> 2, how |-> h] : h \in {"f", "b"}}
\cup {[op |-> "peek", s |-> 2, how |-> h] : h \in {"f", "b"}}
\cup {[op |-> "conv", s |-> 2, how |-> h] : h \in IF ~ Alloc THEN {"rt"} ELSE IF Type = "sq" THEN {"string", "sd", "rt", "bq"} ELSE {"vec", "bd", "rt"}}
\cup (IF Type = "sq" THEN {[op |-> "tline", s |-> 2, d |-> 3]} ELSE {[op |-> "consume", s |-> 2, how |-> "own", m |-> m] : m \in 0..k + 1})

Needles == {Cat(x) : x \in UNION {[1..l -> AlphaOf(Alpha)] : l \in 0..3}} \cup (IF Type = "sq" THEN {<<195>>, <<169>>, <<169, 97>>} ELSE {})
SearchOps(k) ==
     {[op |-> o, s |-> 1, b |-> d] : o \in {"starts", "ends", "find"}, d \in Needles}
\cup {[op |-> o, s |-> 1, b |-> d, m |-> m] : o \in {"exists", "finda"}, d \in Needles, m \in 0..k + 1}
\cup {[op |-> "exists", s |-> 1, b |-> <<97>>, m |-> Big], [op |-> "finda", s |-> 1, b |-> <<97>>, m |-> Big], [op |-> "finda", s |-> 1, b |-> <<>>, m |-> Big]}
\cup {[op |-> "findb", s |-> 1, set |-> w] : w \in {<<97>>, <<98, 233>>, <<>>}}
\cup {[op |-> "split", s |-> 1, how |-> h, b |-> d, m |-> 0] : h \in IF Type = "sq" THEN {"all", "ball"} ELSE {"all"}, d \in {x \in Needles : x # <<>> /\ (Type = "sq" => Valid8(x))}}
\cup {[op |-> "split", s |-> 1, how |-> h, b |-> d, m |-> m] : h \in IF Type = "sq" THEN {"n", "bn"} ELSE {"n"}, d \in {x \in Needles : x # <<>> /\ (Type = "sq" => Valid8(x))}, m \in 0..3}

Kinds == IF Type = "bq" THEN {"bytes", "obytes", "chunks", "ochunks"} ELSE {"bytes", "chunks", "ochunks", "chars", "ochars", "indices"}
Step1(kd) ==
  LET base == {<<"next", 0>>, <<"nth", 0>>, <<"nth", 1>>, <<"nth", 2>>, <<"nth", Big>>, <<"len", 0>>}
  IN CASE kd \in {"bytes", "obytes"} -> base \cup {<<"skip", 0>>, <<"skip", 1>>, <<"skip", 2>>, <<"skip", Big>>, <<"take", 0>>, <<"take", 1>>, <<"take", 2>>, <<"take", 3>>}
       [] kd = "chunks" /\ Type = "bq" -> base \cup {<<"skip", 1>>, <<"skip", 2>>}
       [] kd = "ochunks" -> base \cup {<<"nb", 0>>}
       [] OTHER -> base
Last1(kd) == {<<"rest", 0>>, <<"count", 0>>, <<"last", 0>>} \cup (IF kd \in {"bytes", "obytes", "chunks"} \/ (kd = "ochunks" /\ Type = "bq") THEN {<<"elen", 0>>} ELSE {})
StepScripts(kd) == {Append(x, y) : x \in UNION {[1..l -> Step1(kd)] : l \in 0..Depth}, y \in Last1(kd)}
IterOps(k) == UNION {{[op |-> "iter", s |-> 1, how |-> kd, steps |-> st] : st \in StepScripts(kd)} : kd \in Kinds}

IoOps(k) ==
     {[op |-> "read", s |-> 2, m |-> m] : m \in 0..k + 2} \cup {[op |-> "readex", s |-> 2, m |-> m] : m \in 0..k + 1}
\cup {[op |-> "readv", s |-> 2, ms |-> w] : w \in {<<>>, <<0, 0>>, <<1, 1>>, <<0, 2, 0, 1>>, <<k, 1>>, <<1, k>>, <<2, 0, k>>}}
\cup {[op |-> o, s |-> 2, b |-> b] : o \in {"readend", "readstr", "readline"}, b \in {<<>>, <<195, 169>>}}
\cup {[op |-> "until", s |-> 2, m |-> m, b |-> <<98>>] : m \in {97, 10, 195, 0}}
\cup {[op |-> "fill", s |-> 2, how |-> h] : h \in {"io", "buf"}}
\cup {[op |-> "consume", s |-> 2, how |-> h, m |-> m] : h \in {"io", "adv"}, m \in 0..k + 1}
\cup {[op |-> o, s |-> 2, m |-> m] : o \in {"ctb", "cts"}, m \in 0..k + 1}
\cup {[op |-> "chv", s |-> 2, m |-> m] : m \in 0..k + 1} \cup {[op |-> "buf", s |-> 2], [op |-> "getu", s |-> 2]}
WriteOps == {[op |-> "write", s |-> 2, how |-> h, b |-> b] : h \in {"w", "all"}, b \in {<<>>, <<120>>, <<120, 121>>}}
\cup {[op |-> "write", s |-> 2, how |-> "v", parts |-> w, b |-> <<>>] : w \in {<<>>, <<<<>>>>, <<<<120>>, <<>>, <<121, 122>>>>, <<<<>>, <<120>>>>}}
\cup {[op |-> "write", s |-> 2, how |-> "flush", b |-> <<>>]}

AllOps(k) == CASE Mode = "range" -> RangeOps(k) [] Mode = "search" -> SearchOps(k) [] Mode = "io" -> IoOps(k) \cup WriteOps [] OTHER -> IterOps(k)

(* ---- the algorithm's answers ---- *)
Ok0 == [k |-> "ok"]
OkV(v) == [k |-> "ok", v |-> v]
Pan == [k |-> "panic"]
Ans(r, a, d) == [r |-> r, a |-> a, d |-> d]         \* result, the queue afterwards, what went to the other slot
TP(b, m) == m > Len(b) \/ (Type = "sq" /\ m < Len(b) /\ IsCont(At(b, m)))       \* refused position

RECURSIVE CharAt(_)
CharAt(it) == \* decode one character from a byte iterator
  LET a == BNext(it) IN
  IF a.v = <<>> THEN [it |-> a.it, v |-> <<>>, l |-> 0]
  ELSE LET b0 == a.v[1] l == IF b0 < 128 THEN 1 ELSE IF b0 < 224 THEN 2 ELSE IF b0 < 240 THEN 3 ELSE 4
           b1 == IF l > 1 THEN BNext(a.it) ELSE a
           b2 == IF l > 2 THEN BNext(b1.it) ELSE b1
           b3 == IF l > 3 THEN BNext(b2.it) ELSE b2
           c(x) == x.v[1] % 64
       IN [it |-> b3.it, l |-> l, v |-> <<CASE l = 1 -> b0 [] l = 2 -> (b0 % 32) * 64 + c(b1)
                       [] l = 3 -> (b0 % 16) * 4096 + c(b1) * 64 + c(b2) [] OTHER -> (b0 % 8) * 262144 + c(b1) * 4096 + c(b2) * 64 + c(b3)>>]
(* iterator machines: [it] and the four primitives *)
INext(kd, x) ==
  CASE kd = "bytes" -> BNext(x) [] kd = "obytes" -> ONext(x)
    [] kd \in {"chunks", "ochunks"} -> IF x = <<>> THEN [it |-> x, v |-> <<>>] ELSE [it |-> Tail(x), v |-> <<x[1]>>]
    [] kd \in {"chars", "ochars"} -> LET c == CharAt(x) IN [it |-> c.it, v |-> c.v]
    [] OTHER -> LET c == CharAt(x.it) IN [it |-> [it |-> c.it, o |-> x.o + c.l], v |-> IF c.v = <<>> THEN <<>> ELSE <<<<x.o, c.v[1]>>>>]
ISkip(kd, x, m) == CASE kd = "bytes" -> BSkip(x, m) [] kd = "obytes" -> OSkip(x, m) [] OTHER -> From(x, Min2(m, Len(x)))
ITake(kd, x, m) == IF kd = "bytes" THEN BTake(x, m) ELSE OTake(x, m)
ILen(kd, x) == CASE kd = "bytes" -> BLeft(x) [] kd = "obytes" -> BLen(x) [] kd = "indices" -> BLeft(x.it) [] kd \in {"chars", "ochars"} -> BLeft(x) [] OTHER -> Len(x)
Hint(kd, x) == LET l == ILen(kd, x) IN CASE kd \in {"chars", "indices"} -> <<(l + 3) \div 4, l>> [] kd = "ochars" -> <<0, 0 - 1>> [] OTHER -> <<l, l>>
RECURSIVE INexts(_, _, _)
INexts(kd, x, m) == IF m = 0 THEN x ELSE LET a == INext(kd, x) IN IF a.v = <<>> THEN a.it ELSE INexts(kd, a.it, m - 1)
RECURSIVE IRest(_, _, _)
IRest(kd, x, acc) == LET a == INext(kd, x) IN IF a.v = <<>> THEN acc ELSE IRest(kd, a.it, Append(acc, a.v[1]))
INth(kd, x, m) == IF kd \in {"bytes", "obytes", "chunks"} THEN INext(kd, ISkip(kd, x, m)) ELSE INext(kd, INexts(kd, x, m))
RECURSIVE IRun(_, _, _, _)
IRun(kd, x, st, acc) ==
  IF st = <<>> THEN acc
  ELSE LET nm == st[1][1] m == st[1][2] go(y, o) == IRun(kd, y, Tail(st), Append(acc, o))
           by == kd \in {"bytes", "obytes", "chunks", "ochunks"} IN
  CASE nm = "next" -> LET a == INext(kd, x) IN go(a.it, a.v)
    [] nm = "nth" -> LET a == INth(kd, x, m) IN go(a.it, a.v)
    [] nm = "nb" -> IF x = <<>> THEN go(x, <<>>) ELSE go(Frt(x), <<Lst(x)>>)
    [] nm = "skip" -> go(ISkip(kd, x, m), <<>>)
    [] nm = "take" -> go(ITake(kd, x, m), <<>>)
    [] nm = "len" -> go(x, Hint(kd, x))
    [] nm = "elen" -> go(x, <<ILen(kd, x), ILen(kd, x)>>)
    [] nm = "count" -> Append(acc, IF by THEN ILen(kd, x) ELSE Len(IRest(kd, x, <<>>)))
    [] nm = "last" -> Append(acc, CASE kd = "bytes" -> IF BLeft(x) = 0 THEN <<>> ELSE BNext(BSkip(x, BLeft(x) - 1)).v
                                    [] kd = "obytes" -> IF x = <<>> THEN <<>> ELSE <<Lst(x)[Len(Lst(x))]>>
                                    [] OTHER -> LET s == IRest(kd, x, <<>>) IN IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>)
    [] OTHER -> Append(acc, IRest(kd, x, <<>>))
IStart(kd, x) == CASE kd \in {"bytes", "chars", "ochars"} -> BIter(x) [] kd = "indices" -> [it |-> BIter(x), o |-> 0] [] OTHER -> x

(* ---- reading and writing: chunks are taken off the front, and the unread rest of the last one is put back ---- *)
RECURSIVE Take(_, _, _)
Take(x, m, acc) ==      \* m bytes off the front: <<bytes, queue>>
  IF m = 0 \/ x = <<>> THEN <<acc, x>>
  ELSE LET c == x[1] IN IF Len(c) <= m THEN Take(Tail(x), m - Len(c), acc \o c)
                        ELSE <<acc \o To(c, m), PF(Tail(x), From(c, m))>>
RECURSIVE TakeV(_, _, _)
TakeV(x, ms, acc) ==    \* several buffers, each filled before the next
  IF ms = <<>> \/ x = <<>> THEN <<acc, x>> ELSE LET t == Take(x, ms[1], <<>>) IN TakeV(t[2], Tail(ms), acc \o t[1])
RECURSIVE TakeTo(_, _, _)
TakeTo(x, y, acc) ==    \* up to and including the first byte y
  IF x = <<>> THEN <<acc, x>>
  ELSE LET c == x[1] p == FirstFrom(c, LAMBDA z : z = y, 0) IN
       IF p < 0 THEN TakeTo(Tail(x), y, acc \o c)
       ELSE IF p + 1 = Len(c) THEN <<acc \o c, Tail(x)>> ELSE <<acc \o To(c, p + 1), PF(Tail(x), From(c, p + 1))>>
IoAnswer(x, e) ==
  LET b == Cat(x) k == Len(b) IN
  CASE e.op = "read" -> LET t == Take(x, e.m, <<>>) IN Ans(OkV(<<Len(t[1]), t[1]>>), t[2], <<>>)
    [] e.op = "readv" -> LET t == TakeV(x, e.ms, <<>>) IN Ans(OkV(<<Len(t[1]), t[1]>>), t[2], <<>>)
    [] e.op = "readex" -> LET t == Take(x, e.m, <<>>) IN Ans(IF Len(t[1]) = e.m THEN OkV(t[1]) ELSE [k |-> "err"], t[2], <<>>)
    [] e.op = "readend" -> Ans(OkV(<<k, e.b \o b>>), <<>>, <<>>)
    [] e.op = "readstr" -> Ans(IF Valid8(b) THEN OkV(<<k, e.b \o b>>) ELSE [k |-> "err", v |-> e.b], <<>>, <<>>)
    [] e.op = "readline" -> LET t == TakeTo(x, 10, <<>>) IN Ans(IF Valid8(t[1]) THEN OkV(<<Len(t[1]), e.b \o t[1]>>) ELSE [k |-> "err", v |-> e.b], t[2], <<>>)
    [] e.op = "until" -> LET t == TakeTo(x, e.m, <<>>) IN Ans(OkV(<<Len(t[1]), e.b \o t[1]>>), t[2], <<>>)
    [] e.op = "fill" -> Ans(OkV(IF x = <<>> THEN <<>> ELSE x[1]), x, <<>>)
    [] e.op = "consume" -> IF e.m > k THEN Ans(Pan, x, <<>>) ELSE Ans(Ok0, Consume(x, e.m), <<>>)
    [] e.op \in {"ctb", "cts"} -> IF e.m > k THEN Ans(Pan, x, <<>>) ELSE LET t == Take(x, e.m, <<>>) IN Ans(OkV(t[1]), t[2], <<>>)
    [] e.op = "chv" -> Ans(OkV(SubSeq(x, 1, Min2(e.m, Len(x)))), x, <<>>)
    [] e.op = "buf" -> Ans(OkV(<<k, k > 0>>), x, <<>>)
    [] e.op = "getu" -> IF k < 2 THEN Ans(Pan, x, <<>>) ELSE LET t == Take(x, 2, <<>>) IN Ans(OkV(t[1][1] * 256 + t[1][2]), t[2], <<>>)
    [] e.how = "v" -> LET c == Cat(e.parts) IN Ans(OkV(Len(c)), PB(x, c), <<>>)
    [] e.how = "flush" -> Ans(OkV(0), x, <<>>)
    [] OTHER -> Ans(OkV(Len(e.b)), PB(x, e.b), <<>>)

Answer(x, e) ==
  LET b == Cat(x) k == Len(b)
      refuse == ~ InRange(e.rg, k) \/ TP(b, RLo(e.rg)) \/ TP(b, RHi(e.rg, k))
      lo == RLo(e.rg) hi == RHi(e.rg, k)
      cut(s) == Ans(Ok0, s[2], s[1])
      first(p) == IF p < 0 THEN Ans(Ok0, <<>>, x) ELSE IF p = 0 THEN Ans(Ok0, x, <<>>) ELSE cut(SplitOff(x, p))
  IN
  CASE e.op = "splitoff" -> IF TP(b, e.m) THEN Ans(Pan, x, <<>>) ELSE LET s == SplitOff(x, e.m) IN Ans(Ok0, s[1], s[2])
    [] e.op = "consume" -> IF e.m > k THEN Ans(Pan, x, <<>>) ELSE Ans(Ok0, Consume(x, e.m), <<>>)
    [] e.op = "drain" -> IF refuse THEN Ans(Pan, x, <<>>)
         ELSE Ans(OkV(IRun(IF Type = "sq" THEN "chars" ELSE "bytes", BTake(BSkip(BIter(x), lo), hi - lo), e.steps, <<>>)), DrainQ(x, lo, hi), <<>>)
    [] e.op = "replace" -> IF refuse THEN Ans(Pan, x, <<>>) ELSE Ans(Ok0, ReplaceQ(x, lo, hi, e.b), <<>>)
    [] e.op = "slice" -> IF refuse THEN Ans(Pan, x, <<>>) ELSE Ans(Ok0, x, SliceQ(x, lo, hi))
    [] e.op = "twhile" -> LET in == SeqSet(e.set) IN
         first(IF Type = "sq" THEN FirstCharFrom(b, LAMBDA c : c \notin in, 0) ELSE FirstFrom(b, LAMBDA c : c \notin in, 0))
    [] e.op = "tline" -> LET p == FirstFrom(b, LAMBDA c : c = 10, 0) IN IF p < 0 THEN Ans(Ok0, <<>>, x) ELSE cut(SplitOff(x, p + 1))
    [] e.op = "pop" -> IF x = <<>> THEN Ans([k |-> "none"], x, <<>>)
         ELSE IF e.how = "f" THEN Ans(OkV(x[1]), Tail(x), <<>>) ELSE Ans(OkV(Lst(x)), Frt(x), <<>>)
    [] e.op = "peek" -> IF x = <<>> THEN Ans([k |-> "none"], x, <<>>) ELSE Ans(OkV(IF e.how = "f" THEN x[1] ELSE Lst(x)), x, <<>>)
    [] e.op = "conv" -> CASE e.how = "rt" -> Ans(OkV(x), x, <<>>) [] e.how = "bq" -> Ans(Ok0, x, <<>>) [] OTHER -> Ans(OkV(b), IF e.how = "bd" /\ b # <<>> THEN <<b>> ELSE <<>>, <<>>)
    [] e.op = "starts" -> Ans(OkV(StartsQ(x, e.b)), x, <<>>)
    [] e.op = "ends" -> Ans(OkV(EndsQ(x, e.b)), x, <<>>)
    [] e.op = "find" -> Ans(OkV(FindSlice(x, e.b, 0)), x, <<>>)
    [] e.op = "finda" -> Ans(OkV(FindSlice(x, e.b, e.m)), x, <<>>)
    [] e.op = "exists" -> Ans(OkV(ExistsAt(x, e.m, e.b)), x, <<>>)
    [] e.op = "findb" -> LET in == SeqSet(e.set) IN
         Ans(OkV(IF Type = "sq" THEN FirstCharFrom(b, LAMBDA c : c \in in, 0) ELSE FirstFrom(b, LAMBDA c : c \in in, 0)), x, <<>>)
    [] e.op = "split" -> LET ps == SplitRun(x, e.b, Splitter(x, IF e.how \in {"n", "bn"} THEN e.m ELSE 0), <<>>)
                         IN Ans(OkV([i \in 1..Len(ps) |-> <<Cat(ps[i]), BLen(ps[i])>>]), x, <<>>)
    [] OTHER -> Ans(OkV(IRun(e.how, IStart(e.how, x), e.steps, <<>>)), x, <<>>)

(* ---- the state machine: a queue, one operation, what it answered ---- *)
None1 == [op |-> "none"]
Init == q \in Cuttings /\ op = None1 /\ ans = Ans(Ok0, <<>>, <<>>)
Next == op = None1 /\ \E e \in AllOps(BLen(q)) : op' = e /\ ans' = (IF Mode = "io" THEN IoAnswer(q, e) ELSE Answer(q, e)) /\ UNCHANGED q
Spec == Init /\ [][Next]_vars

(* The algorithm does what the flat specification says, and leaves no empty chunk. *)
S0 == [k \in 1..NK |-> IF k <= 2 THEN Mk(Type, Cat(q)) ELSE No]
Correct == op # None1 =>
  LET o == Outcome(S0, [r |-> ans.r] @@ op, [k \in 1..NK |-> IF k <= 2 THEN q ELSE <<>>])
      got == o.ns
  IN /\ o.ok
     /\ got[op.s].t # "no" => Cat(ans.a) = got[op.s].b
     /\ ("d" \in DOMAIN op /\ got[op.d].t # "no") => Cat(ans.d) = got[op.d].b
     /\ \A i \in DOMAIN ans.a : ans.a[i] # <<>>
     /\ \A i \in DOMAIN ans.d : ans.d[i] # <<>>

(* ---- scripts ---- *)
Junk == <<106>>
RevC(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
Build(s, j, how) ==
  CASE how = 0 -> <<[op |-> "new", t |-> Type, d |-> s, how |-> "iter", parts |-> q, b |-> <<>>, rep |-> j % 8]>>
    [] how = 1 -> <<[op |-> "new", t |-> Type, d |-> s, how |-> "iter", parts |-> <<Junk>> \o q, b |-> <<>>, rep |-> j % 8], [op |-> "pop", s |-> s, how |-> "f"]>>
    [] OTHER -> <<[op |-> "new", t |-> Type, d |-> s, how |-> "new", b |-> <<>>, rep |-> 0]>>
                \o [i \in 1..Len(q) |-> [op |-> "push", s |-> s, how |-> "f", b |-> RevC(q)[i], rep |-> (i + j) % 8]]
Mutates == Mode \in {"range", "io"}
Batch == 120
Script(ops, a, z, how) == (IF Mutates THEN <<>> ELSE Build(1, a + how, how))
   \o FlattenSeq([i \in 1..z - a + 1 |-> LET j == a + i - 1 IN IF Mutates THEN Build(2, j, j % 3) \o <<ops[j]>> ELSE <<ops[j]>>])
(* The same on a single value: what a queue of one chunk does, a byte value and a shared buffer do too. *)
Value(t, j) == <<[op |-> "drop", s |-> 2], [op |-> "new", t |-> t, d |-> 2, how |-> "piece", b |-> Cat(q), rep |-> j % 8]>>
VScript(ops, t) == FlattenSeq([j \in 1..Len(ops) |-> (IF j = 1 THEN Tail(Value(t, j)) ELSE Value(t, j)) \o <<ops[j]>>])
VEmit == (Gen /\ op = None1 /\ Mode = "io" /\ Len(q) <= 1) =>
   LET ops == SetToSeq(IoOps(BLen(q))) IN \A t \in {"bd", "sb"} : PrintT(<<"S", ToJsonObject([ops |-> VScript(ops, t)])>>)
Emit == VEmit /\ ((Gen /\ op = None1) => LET ops == SetToSeq(AllOps(BLen(q))) IN \A k \in 0..((Len(ops) - 1) \div Batch) :
   PrintT(<<"S", ToJsonObject([ops |-> Script(ops, k * Batch + 1, Min2((k + 1) * Batch, Len(ops)), (k + Len(q)) % 3)])>>))
=============================================================================
