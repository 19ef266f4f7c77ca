------------------------------- MODULE Queue -------------------------------
(***************************************************************************)
(* Live byte queues (bq), text queues (sq), byte values (bd) and shared    *)
(* buffers (sb), the last two used as streams.  A slot's abstract state is *)
(* its type and its flat bytes: how a queue is cut into chunks is not part *)
(* of the state, only constrained (no empty chunk, order kept, end chunks  *)
(* handed out whole).  Outcome relates an operation, its observed result   *)
(* and the slots afterwards.                                               *)
(***************************************************************************)
EXTENDS Bytes, Integers, FiniteSets

NK == 3
No == [t |-> "no", b |-> <<>>]
Mk(t, b) == [t |-> t, b |-> b]
HasF(e, f) == f \in DOMAIN e
SeqSet(s) == {s[k] : k \in DOMAIN s}
Text(t) == t \in {"sq", "sd"}

(* ---- positions and ranges a container accepts ---- *)
PosOk(x, m) == m <= Len(x.b) /\ (x.t = "sq" => Boundary(x.b, m))
RangeOk(x, g) == /\ InRange(g, Len(x.b))
                 /\ x.t = "sq" => Boundary(x.b, RLo(g)) /\ Boundary(x.b, RHi(g, Len(x.b)))

(***************************************************************************)
(* Iterators.  seq is what is still to come; a script of steps is consumed *)
(* from the front, each step's observation compared with what the plain    *)
(* sequence gives.  exact: size hints are exact (not just true bounds).    *)
(***************************************************************************)
RECURSIVE StepsOk(_, _, _, _, _)
StepsOk(seq, st, k, out, exact) ==
  IF k > Len(st) THEN Len(out) = k - 1
  ELSE IF Len(out) < k THEN FALSE
  ELSE
  LET nm == st[k][1]  n == st[k][2]  o == out[k]  len == Len(seq)
      end == Len(out) = k
      more(s) == StepsOk(s, st, k + 1, out, exact)
  IN CASE nm = "next"  -> IF seq = <<>> THEN o = <<>> /\ more(seq) ELSE o = <<seq[1]>> /\ more(Tail(seq))
       [] nm = "nb"    -> IF seq = <<>> THEN o = <<>> /\ more(seq) ELSE o = <<seq[len]>> /\ more(SubSeq(seq, 1, len - 1))
       [] nm = "nth"   -> IF n >= len THEN o = <<>> /\ more(<<>>) ELSE o = <<seq[n + 1]>> /\ more(From(seq, n + 1))
       [] nm = "nthb"  -> IF n >= len THEN o = <<>> /\ more(<<>>) ELSE o = <<seq[len - n]>> /\ more(To(seq, len - n - 1))
       [] nm = "skip"  -> o = <<>> /\ more(From(seq, Min2(n, len)))
       [] nm = "take"  -> o = <<>> /\ more(To(seq, Min2(n, len)))
       [] nm = "len"   -> /\ IF exact THEN o = <<len, len>> ELSE o[1] <= len /\ (o[2] = -1 \/ o[2] >= len)
                          /\ more(seq)
       [] nm = "elen"  -> o = <<len, len>> /\ more(seq)
       [] nm = "emp"   -> o = (seq = <<>>) /\ more(seq)
       [] nm = "count" -> o = len /\ end
       [] nm = "last"  -> o = (IF seq = <<>> THEN <<>> ELSE <<seq[len]>>) /\ end
       [] nm = "rest"  -> o = seq /\ end
       [] nm = "rev"   -> o = Rev(seq) /\ end
       [] OTHER -> FALSE
IterOk(seq, st, out, exact) == StepsOk(seq, st, 1, out, exact)

(* Characters of a text queue as the iterators report them.                *)
CharSeq(b) == CharVals(b)
IdxSeq(b) == LET c == Chars(b) IN [k \in 1..Len(c) |-> <<c[k].p, c[k].c>>]

(***************************************************************************)
(* Splitting a queue: pieces between occurrences; an empty queue has no    *)
(* piece; a queue that ends with the separator has a last empty piece.     *)
(***************************************************************************)
RECURSIVE QP(_, _, _)
QP(b, nd, max) ==
  IF max = 1 THEN <<b>>
  ELSE LET p == Find(b, nd) IN
       IF p < 0 THEN <<b>> ELSE <<To(b, p)>> \o QP(From(b, p + Len(nd)), nd, IF max = 0 THEN 0 ELSE max - 1)
QPieces(b, nd, max) == IF b = <<>> THEN <<>> ELSE QP(b, nd, max)

(* Longest prefix whose bytes / characters are in a set.                   *)
PrefixIn(x, set) == LET in == SeqSet(set)
                        p == IF x.t = "sq" THEN FirstCharFrom(x.b, LAMBDA c : c \notin in, 0)
                             ELSE FirstFrom(x.b, LAMBDA c : c \notin in, 0)
                    IN IF p < 0 THEN Len(x.b) ELSE p
LinePrefix(b) == LET p == FirstFrom(b, LAMBDA c : c = 10, 0) IN IF p < 0 THEN Len(b) ELSE p + 1

(* Bounds given before every step of an iterator of n items (-1: none).    *)
HintsOk(hs, n) == Len(hs) = n + 1 /\ \A k \in 1..n + 1 : hs[k][1] <= n + 1 - k /\ (hs[k][2] < 0 \/ hs[k][2] >= n + 1 - k)

Res(ok, ns) == [ok |-> ok, ns |-> ns]

(* What an operation must yield and leave behind.  C[k]: the chunks of     *)
(* slot k as last observed (end chunks are handed out whole).              *)
Outcome(S, e, C) ==
  LET r == e.r
      s == IF HasF(e, "s") THEN e.s ELSE 0
      x == IF s = 0 THEN No ELSE S[s]
      n == Len(x.b)
      is(k) == r.k = k
      isv(v) == r.k = "ok" /\ HasF(r, "v") /\ r.v = v
      set(b) == [S EXCEPT ![s].b = b]
      put(v) == [S EXCEPT ![s] = v]
      two(a, d) == [S EXCEPT ![s].b = a, ![e.d] = Mk(x.t, d)]
      rangeop(f) == IF RangeOk(x, e.rg) THEN f ELSE Res(is("panic"), S)
      lo == RLo(e.rg)  hi == RHi(e.rg, n)
      posop(m, f) == IF PosOk(x, m) THEN f ELSE Res(is("panic"), S)
      inq(m, f) == IF m <= n THEN f ELSE Res(is("panic"), S)
      ch == C[s]
  IN
  CASE e.op = "finish" -> Res(is("ok"), [k \in 1..NK |-> No])
    [] e.op = "new" -> Res(is("ok"), [S EXCEPT ![e.d] = Mk(e.t, IF HasF(e, "parts") THEN Cat(e.parts) ELSE e.b)])
    [] e.op = "drop" -> Res(is("ok"), put(No))
    [] e.op = "clone" -> Res(is("ok"), [S EXCEPT ![e.d] = x])
    [] e.op = "conv" ->
         CASE e.how \in {"vec", "bytes", "string", "sd"} -> Res(isv(x.b), put(No))
           [] e.how = "sb" -> Res(isv(x.b), put(Mk("sb", x.b)))
           [] e.how = "bd" -> Res(isv(x.b), put(Mk("bd", x.b)))
           [] e.how = "bq" -> Res(is("ok"), put(Mk("bq", x.b)))
           [] e.how = "rt" -> Res(isv(ch), S)
           [] OTHER -> Res(isv(x.b), S)
    [] e.op = "push" -> Res(is("ok"), set(IF e.how = "f" THEN e.b \o x.b ELSE x.b \o e.b))
    [] e.op = "pop" -> IF n = 0 THEN Res(is("none"), S)
                       ELSE IF e.how = "f" THEN Res(isv(ch[1]), set(From(x.b, Len(ch[1]))))
                       ELSE Res(isv(ch[Len(ch)]), set(To(x.b, n - Len(ch[Len(ch)]))))
    [] e.op = "peek" -> IF x.t \in {"bd", "sb"} \/ n = 0 THEN Res(is("none"), S)
                        ELSE Res(isv(IF e.how = "f" THEN ch[1] ELSE ch[Len(ch)]), S)
    [] e.op = "append" -> Res(is("ok"), [S EXCEPT ![s].b = x.b \o S[e.d].b, ![e.d] = No])
    [] e.op = "extend" -> Res(is("ok"), set(x.b \o Cat(e.parts)))
    [] e.op = "splitoff" -> posop(e.m, Res(is("ok"), two(To(x.b, e.m), From(x.b, e.m))))
    [] e.op = "drain" -> rangeop(Res(
            /\ is("ok")
            /\ LET d == Sub(x.b, lo, hi) IN IF x.t = "sq" THEN IterOk(CharSeq(d), e.steps, r.v, FALSE) ELSE IterOk(d, e.steps, r.v, TRUE),
            set(To(x.b, lo) \o From(x.b, hi))))
    [] e.op = "replace" -> rangeop(Res(is("ok"), set(To(x.b, lo) \o e.b \o From(x.b, hi))))
    [] e.op = "slice" -> rangeop(Res(is("ok"), [S EXCEPT ![e.d] = Mk(x.t, Sub(x.b, lo, hi))]))
    [] e.op = "consume" -> inq(e.m, Res(is("ok"), set(From(x.b, e.m))))
    [] e.op = "twhile" -> LET p == PrefixIn(x, e.set) IN Res(is("ok"), two(From(x.b, p), To(x.b, p)))
    [] e.op = "tline" -> LET p == LinePrefix(x.b) IN Res(is("ok"), two(From(x.b, p), To(x.b, p)))
    \* ---- queries ----
    [] e.op = "full" -> Res(isv(FALSE), S)
    [] e.op = "starts" -> Res(isv(Starts(x.b, e.b)), S)
    [] e.op = "ends" -> Res(isv(Ends(x.b, e.b)), S)
    [] e.op = "exists" -> Res(isv(e.m <= n /\ MatchAt(x.b, e.m, e.b)), S)
    [] e.op = "find" -> Res(isv(Find(x.b, e.b)), S)
    [] e.op = "finda" -> Res(isv(IF e.m > n THEN -1 ELSE FindFrom(x.b, e.b, e.m)), S)
    [] e.op = "findb" -> Res(isv(LET in == SeqSet(e.set) IN
                                 IF x.t = "sq" THEN FirstCharFrom(x.b, LAMBDA c : c \in in, 0)
                                 ELSE FirstFrom(x.b, LAMBDA c : c \in in, 0)), S)
    [] e.op = "split" -> LET ps == QPieces(x.b, e.b, IF e.how \in {"n", "bn"} THEN e.m ELSE 0)
                         IN Res(isv([k \in 1..Len(ps) |-> <<ps[k], Len(ps[k])>>]) /\ (HasF(r, "h") => HintsOk(r.h, Len(ps))), S)
    [] e.op = "iter" -> Res(
            /\ is("ok")
            /\ CASE e.how \in {"bytes", "obytes"} -> IterOk(x.b, e.steps, r.v, TRUE)
                 [] e.how \in {"chars", "ochars"} -> IterOk(CharSeq(x.b), e.steps, r.v, FALSE)
                 [] e.how = "indices" -> IterOk(IdxSeq(x.b), e.steps, r.v, FALSE)
                 [] OTHER -> IterOk(ch, e.steps, r.v, TRUE),
            S)
    \* ---- standard I/O ----
    [] e.op = "read" -> LET k == Min2(e.m, n) IN Res(isv(<<k, To(x.b, k)>>), set(From(x.b, k)))
    [] e.op = "readv" -> LET k == Min2(FoldLeft(LAMBDA a, b : a + b, 0, e.ms), n) IN Res(isv(<<k, To(x.b, k)>>), set(From(x.b, k)))
    [] e.op = "readex" -> IF e.m <= n THEN Res(isv(To(x.b, e.m)), set(From(x.b, e.m)))
                          ELSE Res(is("err"), set(<<>>))     \* the trait leaves how much was taken open; the library takes all
    [] e.op = "readend" -> Res(isv(<<n, e.b \o x.b>>), set(<<>>))
    [] e.op = "readstr" -> IF Valid8(x.b) THEN Res(isv(<<n, e.b \o x.b>>), set(<<>>))
                           ELSE Res(is("err") /\ r.v = e.b, set(<<>>))
    [] e.op = "readline" -> LET p == LinePrefix(x.b) l == To(x.b, p) IN
                            IF Valid8(l) THEN Res(isv(<<p, e.b \o l>>), set(From(x.b, p)))
                            ELSE Res(is("err") /\ r.v = e.b, set(From(x.b, p)))
    [] e.op = "until" -> LET q == FirstFrom(x.b, LAMBDA c : c = e.m, 0) p == IF q < 0 THEN n ELSE q + 1
                         IN Res(isv(<<p, e.b \o To(x.b, p)>>), set(From(x.b, p)))
    [] e.op = "fill" -> Res(is("ok") /\ Starts(x.b, r.v) /\ (n > 0 => r.v # <<>>), S)
    [] e.op = "write" -> CASE e.how = "flush" -> Res(is("ok"), S)
                           [] e.how = "v" -> LET c == Cat(e.parts) IN
                                Res(is("ok") /\ r.v <= Len(c) /\ (c # <<>> => r.v > 0), set(x.b \o To(c, IF is("ok") THEN Min2(r.v, Len(c)) ELSE 0)))
                           [] e.how = "all" -> Res(isv(Len(e.b)), set(x.b \o e.b))
                           [] OTHER -> Res(is("ok") /\ r.v <= Len(e.b) /\ (e.b # <<>> => r.v > 0), set(x.b \o To(e.b, IF is("ok") THEN Min2(r.v, Len(e.b)) ELSE 0)))
    \* ---- the bytes ecosystem ----
    [] e.op = "buf" -> Res(isv(<<n, n > 0>>), S)
    [] e.op \in {"ctb", "cts"} -> inq(e.m, Res(isv(To(x.b, e.m)), set(From(x.b, e.m))))
    [] e.op = "chv" -> Res(is("ok") /\ (e.m > 0 /\ n > 0 => Len(r.v) > 0) /\ Len(r.v) <= e.m
                           /\ Starts(x.b, Cat(r.v)) /\ (\A k \in DOMAIN r.v : r.v[k] # <<>>), S)
    [] e.op = "getu" -> IF n >= 2 THEN Res(isv(x.b[1] * 256 + x.b[2]), set(From(x.b, 2))) ELSE Res(is("panic"), S)
    [] OTHER -> Res(FALSE, S)

(***************************************************************************)
(* Bounded queues (no allocator): at most cap chunks.  Pushes are refused  *)
(* at the limit and change nothing; operations made of several pushes keep *)
(* the pushes that were accepted.  A range operation that would need more  *)
(* chunks may be refused too; it then leaves things as they were, leaves  *)
(* the replacement out, or keeps a prefix of the result.                   *)
(***************************************************************************)
NonEmpty(ps) == SelectSeq(ps, LAMBDA p : p # <<>>)
FitIn(ps, room) == LET q == NonEmpty(ps) IN To(q, Min2(room, Len(q)))
BOutcome(S, e, C, obs, cap) ==
  LET o == Outcome(S, e, C)
      s == IF HasF(e, "s") THEN e.s ELSE 0
      x == IF s = 0 THEN No ELSE S[s]
      cn == IF s = 0 THEN 0 ELSE Len(C[s])
      panic == e.r.k = "panic"
      many(ps) == LET f == FitIn(ps, cap - cn) IN
          IF Len(f) = Len(NonEmpty(ps)) THEN o ELSE Res(panic, [S EXCEPT ![s].b = x.b \o Cat(f)])
  IN
  IF cap = 0 THEN o ELSE
  CASE e.op = "full" -> Res(e.r.k = "ok" /\ e.r.v = (cn = cap), S)
    [] e.op = "push" -> IF e.b # <<>> /\ cn >= cap THEN Res(panic, S) ELSE o
    [] e.op = "extend" -> many(e.parts)
    [] e.op = "append" -> LET m == many(C[e.d]) IN Res(m.ok, [m.ns EXCEPT ![e.d] = No])
    [] e.op = "new" /\ HasF(e, "parts") /\ Len(NonEmpty(e.parts)) > cap -> Res(panic, S)
    [] e.op \in {"drain", "replace"} /\ panic /\ RangeOk(x, e.rg) /\ cn + (IF e.op = "drain" THEN 1 ELSE 2) > cap ->
         LET full == o.ns[s].b  lo == RLo(e.rg)  hi == RHi(e.rg, Len(x.b)) IN
         Res(\/ Starts(full, obs) /\ Len(obs) >= lo
             \/ obs = x.b
             \/ obs = To(x.b, lo) \o From(x.b, hi), [S EXCEPT ![s].b = obs])
    [] OTHER -> o
=============================================================================
