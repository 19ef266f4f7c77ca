------------------------------ MODULE BuilderMC ------------------------------
(***************************************************************************)
(* Builders as blocks.  A builder is nothing yet or a block: a header as   *)
(* large as the alignment asks, data, and room behind it.  Growing obtains *)
(* a larger block (powers of two, then whole steps) and moves the data;    *)
(* freezing hands the block to a shared buffer; opening a shared buffer    *)
(* again takes the block when nobody else holds it and it starts where     *)
(* builders start, else copies.  Checked over every short history: the     *)
(* block shows exactly the bytes Pool states, has the room that was asked  *)
(* for, and is aligned as asked.  With Gen every history is a script.      *)
(***************************************************************************)
EXTENDS Pool, TLC, Json
CONSTANTS Depth, Gen, Kind, Step, Scale,     \* Kind: "bb" or "tb"; Step: growth step above it; Scale: repetitions of every byte pushed
          Strict                             \* whether a block is only opened again when the value starts where builders start
VARIABLES m, x2, S, hist
vars == <<m, x2, S, hist>>
(* m: the machine's value in slot 1; x2: whether slot 2 holds a clone of its block *)
Hdr(al) == IF al <= 16 THEN 16 ELSE al
RECURSIVE P2(_, _)
P2(k, p) == IF p >= k THEN p ELSE P2(k, 2 * p)
Total(k) == IF k >= Step THEN (k \div Step) * Step + Step ELSE P2(k, 1)
Nothing(al) == [t |-> Kind, al |-> al, d |-> <<>>, off |-> 0, tot |-> 0]
Cap(v) == IF v.tot = 0 THEN 0 ELSE v.tot - Hdr(v.al)
Room(v, k) == IF k = 0 \/ Cap(v) >= Len(v.d) + k THEN v ELSE [v EXCEPT !.tot = Total(Hdr(v.al) + Len(v.d) + k)]

U(s) == [i \in 1..(Len(s) * Scale) |-> s[((i - 1) % Len(s)) + 1]]
Pushes == IF Kind = "tb" THEN {<<>>, <<97>>, <<195, 169>>, <<240, 159, 146, 150>>, <<97, 226, 130, 172, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110>>}
          ELSE {<<>>, <<1>>, <<2, 3, 4, 5, 6, 7, 8, 9>>, [i \in 1..15 |-> 20 + i], [i \in 1..16 |-> 40 + i], [i \in 1..17 |-> 60 + i], [i \in 1..47 |-> 80 + i]}
Hows == IF Kind = "tb" THEN {"str"} ELSE {"slice"}
Opens == IF Kind = "tb" THEN {[how |-> "new"], [how |-> "cap", cap |-> 5], [how |-> "cap", cap |-> 16]}
         ELSE {[how |-> "new"], [how |-> "cap", cap |-> 1], [how |-> "cap", cap |-> 16], [how |-> "cap", cap |-> 17]}
              \cup [how : {"align"}, al : {1, 8, 32, 512}] \cup [how : {"capalign"}, cap : {3, 16, 48}, al : {1, 8, 32, 256}]
Init == m = [t |-> "no"] /\ x2 = 0 /\ S = [k \in 1..NK |-> No] /\ hist = <<>>
Do(e, v, y) == m' = v /\ x2' = y /\ hist' = Append(hist, e) /\ S' = Exp(S, e, v.t, IF HasF(e, "b") THEN Len(e.b) ELSE 0).ns
IsB == m.t = Kind
Open == hist = <<>> /\ \E o \in Opens : LET al == IF HasF(o, "al") THEN o.al ELSE 1 IN
          Do([op |-> IF Kind = "tb" THEN "c_tb" ELSE "c_bb", b |-> <<>>, d |-> 1] @@ o,
             IF HasF(o, "cap") THEN [Nothing(al) EXCEPT !.tot = Total(Hdr(al) + o.cap)] ELSE Nothing(al), x2)
Push == IsB /\ \E w \in Pushes : \E h \in Hows : LET b == IF w = <<>> THEN w ELSE U(w) IN
          Do([op |-> "push", s |-> 1, how |-> h, b |-> b], LET g == Room(m, Len(b)) IN [g EXCEPT !.d = m.d \o b], x2)
Reserve == IsB /\ \E k \in {0, 1, 16, 100} : Do([op |-> "reserve", s |-> 1, m |-> k], Room(m, k), x2)
Trunc == IsB /\ \E k \in {0, 1, 9, Len(m.d)} : (Kind = "bb" \/ Boundary(m.d, Min2(k, Len(m.d)))) = TRUE /\
          Do([op |-> "trunc", s |-> 1, m |-> k], [m EXCEPT !.d = SubSeq(@, 1, Min2(k, Len(@)))], x2)
Clear == IsB /\ Do([op |-> "clear", s |-> 1], [m EXCEPT !.d = <<>>], x2)
Freeze == IsB /\ Do([op |-> "conv", s |-> 1, to |-> "sb"], IF m.tot = 0 THEN [t |-> "sb", al |-> 1, d |-> <<>>, off |-> 0, tot |-> 0] ELSE [m EXCEPT !.t = "sb"], 0)
Share == m.t = "sb" /\ S[2].t = "no" /\ Do([op |-> "clone", s |-> 1, d |-> 2], m, IF m.tot = 0 \/ m.d = <<>> THEN 0 ELSE 1)
Unshare == S[2].t # "no" /\ Do([op |-> "drop", s |-> 2], m, 0)
Cut == m.t = "sb" /\ Len(m.d) >= 2 /\ \E r \in {<<1, Len(m.d)>>, <<0, Len(m.d) - 1>>} :
          Do([op |-> "slc", fn |-> "make", s |-> 1, rg |-> [s |-> <<"i", r[1]>>, e |-> <<"x", r[2]>>]],
             [m EXCEPT !.d = SubSeq(@, r[1] + 1, r[2]), !.off = @ + r[1]], x2)
Reopen == m.t = "sb" /\ Kind = "bb" /\
          Do([op |-> "conv", s |-> 1, to |-> "bb"],
             IF m.tot = 0 THEN Nothing(1)
             ELSE IF x2 = 0 /\ (Strict => m.off = 0) THEN [m EXCEPT !.t = "bb"]
             ELSE [t |-> "bb", al |-> m.al, d |-> m.d, off |-> 0, tot |-> IF m.d = <<>> THEN 0 ELSE Total(Hdr(m.al) + Len(m.d))], x2)
Next == Len(hist) < Depth /\ (Open \/ Push \/ Reserve \/ Trunc \/ Clear \/ Freeze \/ Share \/ Unshare \/ Cut \/ Reopen)
Spec == Init /\ [][Next]_vars

Last1 == hist[Len(hist)]
Shows == m.t # "no" => m.t = S[1].t /\ m.d = S[1].b
Fits  == m.t # "no" => Len(m.d) + m.off <= (IF m.tot = 0 THEN 0 ELSE Cap(m))
Asked == /\ hist # <<>> /\ Last1.op = "reserve" => Cap(m) - Len(m.d) >= Last1.m
         /\ hist # <<>> /\ HasF(Last1, "cap") => Cap(m) >= Last1.cap
AlignOk == /\ m.t \in {"bb", "tb"} => m.al >= S[1].al
           /\ m.t # "no" /\ m.tot # 0 => Hdr(m.al) % m.al = 0
AtStart == m.t = Kind => m.off = 0            \* a builder has no offset of its own: what it shows starts behind the header
Correct == AtStart /\ Shows /\ Fits /\ Asked /\ AlignOk
GView == <<m, x2, S, Len(hist)>>
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"S", ToJsonObject([ops |-> hist])>>)
=============================================================================
