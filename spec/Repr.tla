-------------------------------- MODULE Repr --------------------------------
(***************************************************************************)
(* How the library represents values, and what each operation does to the  *)
(* representation: contents of at most CL bytes inline, static or borrowed *)
(* slices, reference-counted shared blocks, wrapped external owners, the   *)
(* storage of plain vectors and of the bytes crate.  A handle is a record  *)
(*   t type, k kind, id block (or loan), off, n, w content held directly,  *)
(*   ln the loans it may look at by its type (the borrow checker's view).  *)
(* Storage blocks are a sequence of [kind, data, rc, pay]: rc counts       *)
(* handles, 0 is given back; pay is the owner inside an external wrapper.  *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, SequencesExt
CL == 14
Hd(t, k, id, off, n, w, ln) == [t |-> t, k |-> k, id |-> id, off |-> off, n |-> n, w |-> w, ln |-> ln]
Nil == Hd("no", "none", 0, 0, 0, <<>>, {})
Inl(t, w, ln)  == Hd(t, "inl", 0, 0, Len(w), w, ln)
Stat(t, w)     == Hd(t, "stat", 0, 0, Len(w), w, {})
Own(t, w)      == Hd(t, "own", 0, 0, Len(w), w, {})
EmptyShr(t)    == Hd(t, "shr", 0, 0, 0, <<>>, {})
As(v, t)       == [v EXCEPT !.t = t]
P(B, v)        == [B |-> B, v |-> v]

Counted(v) == v.k \in {"shr", "ext", "byb", "bld"} /\ v.id # 0
Den(B, v)  == IF v.k \in {"inl", "stat", "bor", "own"} THEN v.w ELSE IF v.n = 0 THEN <<>> ELSE Sub(B[v.id].data, v.off, v.off + v.n)

Blk(kind, w, pay) == [kind |-> kind, data |-> w, rc |-> 1, pay |-> pay]
Inc(B, v) == IF Counted(v) THEN [B EXCEPT ![v.id].rc = @ + 1] ELSE B
RECURSIVE Drop(_, _)
Drop(B, v) ==
  IF ~ Counted(v) THEN B
  ELSE IF B[v.id].rc = 1 /\ B[v.id].pay # Nil THEN Drop([B EXCEPT ![v.id].rc = 0], B[v.id].pay)
  ELSE [B EXCEPT ![v.id].rc = @ - 1]
Unique(B, v) == v.id = 0 \/ B[v.id].rc = 1

NewBlk(B, kind, t, k, w) == P(Append(B, Blk(kind, w, Nil)), Hd(t, k, Len(B) + 1, 0, Len(w), <<>>, {}))
NewShr(B, t, w) == IF w = <<>> THEN P(B, EmptyShr(t)) ELSE NewBlk(B, "shb", t, "shr", w)
NewByb(B, w)    == IF w = <<>> THEN P(B, Stat("by", <<>>)) ELSE NewBlk(B, "byb", "by", "byb", w)
NewExt(B, w, pay) == IF Len(w) <= CL THEN P(Drop(B, pay), Inl("bd", w, {}))
                     ELSE P(Append(B, Blk("ext", w, pay)), Hd("bd", "ext", Len(B) + 1, 0, Len(w), <<>>, {}))
Then(p, v) == P(Drop(p.B, v), p.v)           \* the operand is consumed after the result was made

(* ---- slicing ---- *)
Shift(v, a, b) == [v EXCEPT !.off = @ + a, !.n = b - a]
Narrow(v, a, b) == [v EXCEPT !.w = Sub(@, a, b), !.n = b - a]
Sliced(B, v, a, b) ==
  CASE v.t = "bd" ->
         IF v.k = "inl" \/ b - a <= CL THEN P(B, Inl("bd", Sub(Den(B, v), a, b), v.ln))
         ELSE IF v.k \in {"stat", "bor"} THEN P(B, Narrow(v, a, b))
         ELSE P(Inc(B, v), Shift(v, a, b))
    [] v.t = "sb" -> IF a = b THEN P(B, EmptyShr("sb")) ELSE P(Inc(B, v), Shift(v, a, b))
    [] OTHER      -> IF a = b THEN P(B, Stat("by", <<>>)) ELSE IF v.k = "stat" THEN P(B, Narrow(v, a, b)) ELSE P(Inc(B, v), Shift(v, a, b))
Made(B, v, a, b) ==
  IF v.k \in {"inl", "stat", "bor"} THEN P(B, Narrow(v, a, b))
  ELSE IF v.t = "bd" /\ b - a <= CL THEN P(Drop(B, v), Inl("bd", Sub(Den(B, v), a, b), {}))
  ELSE P(B, Shift(v, a, b))
IntoShared(B, v) ==
  IF v.k # "bor" THEN P(B, [v EXCEPT !.ln = {}])
  ELSE IF v.n <= CL THEN P(B, Inl("bd", v.w, {})) ELSE NewShr(B, "bd", v.w)
IntoSharedRange(B, v, a, b) ==
  CASE v.k = "inl" -> P(B, [Narrow(v, a, b) EXCEPT !.ln = {}])
    [] v.k \in {"shr", "ext"} -> P(B, [Shift(v, a, b) EXCEPT !.ln = {}])
    [] OTHER -> IF b - a <= CL THEN P(B, Inl("bd", Sub(v.w, a, b), {}))
                ELSE IF v.k = "stat" THEN P(B, Narrow(v, a, b)) ELSE NewShr(B, "bd", Sub(v.w, a, b))
Clone(B, v) == IF v.k = "shr" /\ v.n = 0 THEN P(B, EmptyShr(v.t)) ELSE P(Inc(B, v), v)

(* ---- conversions: consume v ---- *)
Cow(B, v) == Then(P(B, Own("vec", Den(B, v))), v)
ToVec(B, v) == P(IF v.k = "ext" /\ Unique(B, v) THEN Drop(B, v) ELSE Drop(B, v), Own("vec", Den(B, v)))
ToBytes(B, v) ==
  CASE v.k = "stat" -> P(B, As(v, "by"))
    [] v.k \in {"inl", "bor"} -> NewByb(B, v.w)
    [] v.k = "shr" -> IF v.n = 0 THEN P(Drop(B, v), Stat("by", <<>>)) ELSE P(B, As(v, "by"))
    [] OTHER -> LET pay == B[v.id].pay IN
                IF pay.t = "by" THEN Then(Sliced(B, pay, v.off, v.off + v.n), v) ELSE Then(NewByb(B, Den(B, v)), v)
ToBuilder(B, v) ==
  IF v.id = 0 THEN P(B, Hd("bb", "bld", 0, 0, 0, <<>>, {}))
  ELSE IF Unique(B, v) THEN P([B EXCEPT ![v.id].data = Den(B, v)], Hd("bb", "bld", v.id, 0, v.n, <<>>, {}))
  ELSE IF v.n = 0 THEN P(Drop(B, v), Hd("bb", "bld", 0, 0, 0, <<>>, {}))
  ELSE Then(NewBlk(B, "shb", "bb", "bld", Den(B, v)), v)
Build(B, v) == IF v.n = 0 THEN P(Drop(B, v), EmptyShr("sb")) ELSE P(B, Hd("sb", "shr", v.id, 0, v.n, <<>>, {}))
Push(B, v, w) ==
  IF w = <<>> THEN P(B, v)
  ELSE IF v.id = 0 THEN NewBlk(B, "shb", "bb", "bld", w)
  ELSE P([B EXCEPT ![v.id].data = To(@, v.n) \o w], [v EXCEPT !.n = @ + Len(w)])
SmallOr(p) == IF p.v.n <= CL THEN P(Drop(p.B, p.v), Inl("bd", Den(p.B, p.v), {})) ELSE P(p.B, As(p.v, "bd"))

Conv(B, v, to) ==
  CASE v.t = "bd" /\ to = "sb"     -> IF v.k = "shr" THEN P(B, [v EXCEPT !.t = "sb", !.ln = {}]) ELSE Then(NewShr(B, "sb", Den(B, v)), v)
    [] v.t = "bd" /\ to = "vec"    -> ToVec(B, v)
    [] v.t = "bd" /\ to = "by"     -> ToBytes(B, [v EXCEPT !.ln = {}])
    [] v.t = "bd" /\ to = "shared" -> IntoShared(B, v)
    [] v.t = "bd" /\ to = "cow"    -> IF v.k \in {"stat", "bor"} THEN P(B, [v EXCEPT !.k = "bor"]) ELSE ToVec(B, v)
    [] v.t = "sb" /\ to = "bd"     -> P(B, As(v, "bd"))
    [] v.t = "sb" /\ to = "bd2"    -> SmallOr(P(B, v))
    [] v.t = "sb" /\ to = "bb"     -> ToBuilder(B, v)
    [] v.t = "sb" /\ to = "by"     -> ToBytes(B, v)
    [] v.t = "bb" /\ to = "sb"     -> Build(B, v)
    [] v.t = "bb" /\ to = "bd"     -> SmallOr(Build(B, v))
    [] v.t = "by" /\ to = "bd"     -> IF v.k = "stat" THEN P(B, As(v, "bd")) ELSE Then(NewShr(B, "bd", Den(B, v)), v)
    [] v.t = "by" /\ to = "sb"     -> Then(NewShr(B, "sb", Den(B, v)), v)
    [] v.t = "by" /\ to = "vec"    -> Then(P(B, Own("vec", Den(B, v))), v)
    [] v.t = "by" /\ to = "trymut" -> IF v.k # "stat" /\ Unique(B, v) THEN Then(P(B, Own("bm", Den(B, v))), v) ELSE P(B, v)
    [] v.t = "by" /\ to = "ext"    -> NewExt(B, Den(B, v), v)
    [] v.t = "vec" /\ to = "sb"    -> NewShr(B, "sb", v.w)
    [] v.t = "vec" /\ to = "bd"    -> IF v.n <= CL THEN P(B, Inl("bd", v.w, {})) ELSE IF v.n < 32 THEN NewShr(B, "bd", v.w) ELSE NewExt(B, v.w, v)
    [] v.t = "bm" /\ to = "by"     -> NewByb(B, v.w)
ConvsOf(t) == CASE t = "bd" -> {"sb", "vec", "by", "shared", "cow"} [] t = "sb" -> {"bd", "bd2", "bb", "by"} [] t = "bb" -> {"sb", "bd"}
                [] t = "by" -> {"bd", "sb", "vec", "trymut", "ext"} [] t = "vec" -> {"sb", "bd"} [] t = "bm" -> {"by"} [] OTHER -> {}
=============================================================================
