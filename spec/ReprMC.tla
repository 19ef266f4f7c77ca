------------------------------- MODULE ReprMC -------------------------------
(***************************************************************************)
(* Every short history of operations over a few values of every            *)
(* representation.  The representation machine (Repr) must show exactly    *)
(* the contents the specification (Pool) states, and its reference counts  *)
(* must be the number of handles: storage is given back exactly when the   *)
(* last handle goes, never looked at afterwards, and a value only borrows  *)
(* from a lender its type still names.  With Gen, every history becomes a  *)
(* script for the library.                                                 *)
(***************************************************************************)
EXTENDS Repr, Pool, TLC, Json
CONSTANTS Depth, NS, Gen, First, Later, Closing   \* First, Later: constructors of the first and of further values; Closing: closing operations ({}: any)
VARIABLES B, V, S, hist, seq, loans      \* loans: lenders still holding their storage
vars == <<B, V, S, hist, seq, loans>>
Slots == 1..NS
Init == B = <<>> /\ V = [k \in Slots |-> Nil] /\ S = [k \in 1..NK |-> No] /\ hist = <<>> /\ seq = 0 /\ loans = {}

Word(n, s) == [i \in 1..n |-> (s * 50 + i) % 251]
Free == {k \in Slots : V[k] = Nil}
Dst == IF Free = {} THEN 0 ELSE CHOOSE k \in Free : \A j \in Free : k <= j
Con(how, d) == LET w == Word(CASE how = "chunk" -> 3 [] how \in {"static", "borrowed", "by", "vec16"} -> 16 [] how = "vec40" -> 40 [] OTHER -> 20, seq) IN
  CASE how = "static"   -> [e |-> [op |-> "c_bd", how |-> "static", b |-> w, d |-> d], p |-> P(B, Stat("bd", w))]
    [] how = "borrowed" -> [e |-> [op |-> "c_bd", how |-> "borrowed", b |-> w, d |-> d, ln |-> seq + 1], p |-> P(B, Hd("bd", "bor", seq + 1, 0, 16, w, {seq + 1}))]
    [] how = "chunk"    -> [e |-> [op |-> "c_bd", how |-> "chunk", b |-> w, d |-> d], p |-> P(B, Inl("bd", w, {}))]
    [] how = "own"      -> [e |-> [op |-> "c_ext", how |-> "own", b |-> w, d |-> d, oid |-> seq + 1], p |-> NewExt(B, w, Own("own", w))]
    [] how = "sb"       -> [e |-> [op |-> "c_sb", how |-> "slice", b |-> w, d |-> d], p |-> NewShr(B, "sb", w)]
    [] how = "bb"       -> [e |-> [op |-> "c_bb", how |-> "new", b |-> <<>>, d |-> d], p |-> P(B, Hd("bb", "bld", 0, 0, 0, <<>>, {}))]
    [] how = "by"       -> [e |-> [op |-> "c_by", how |-> "vec", b |-> w, d |-> d], p |-> NewByb(B, w)]
    [] OTHER            -> [e |-> [op |-> "c_vec", b |-> w, d |-> d], p |-> P(B, Own("vec", w))]


Do(e, st, obst) == /\ B' = st.B /\ V' = st.V /\ hist' = Append(hist, e)
                   /\ S' = Exp(S, e, obst, Len(IF HasF(e, "b") THEN e.b ELSE <<>>)).ns
                   /\ seq' = IF e.op \in {"c_bd", "c_ext", "c_sb", "c_by", "c_vec", "c_bb"} THEN seq + 1 ELSE seq
                   /\ loans' = IF e.op = "expire" THEN loans \ {e.ln} ELSE IF HasF(e, "ln") THEN loans \cup {e.ln} ELSE loans
St(b, v) == [B |-> b, V |-> v]
Set1(p, s) == St(p.B, [V EXCEPT ![s] = p.v])
Rg(a, b) == [s |-> <<"i", a>>, e |-> <<"x", b>>]
Ranges(n) == {<<1, n>>, <<0, n - 1>>, <<2, 4>>, <<n, n>>} \cap {<<a, b>> \in (0..n) \X (0..n) : a <= b}
Make == /\ Dst # 0
        /\ \E how \in IF hist = <<>> THEN First ELSE Later : LET c == Con(how, Dst) IN Do(c.e, Set1(c.p, Dst), c.p.v.t)
Lose == \E s \in Slots \ Free : Do([op |-> "drop", s |-> s], St(Drop(B, V[s]), [V EXCEPT ![s] = Nil]), "no")
Dup  == Dst # 0 /\ \E s \in Slots \ Free : V[s].t \in {"bd", "sb", "by", "vec"} /\
          LET p == Clone(B, V[s]) IN Do([op |-> "clone", s |-> s, d |-> Dst], St(p.B, [V EXCEPT ![Dst] = p.v]), V[s].t)
Slice == \E s \in Slots \ Free : LET v == V[s] IN \E r \in Ranges(v.n) : LET a == r[1] b == r[2] IN
   \/ Dst # 0 /\ v.t \in {"bd", "sb", "by"} /\ LET p == Sliced(B, v, a, b) IN
        Do([op |-> "slc", fn |-> "sliced", s |-> s, d |-> Dst, rg |-> Rg(a, b)], St(p.B, [V EXCEPT ![Dst] = p.v]), v.t)
   \/ v.t \in {"bd", "sb"} /\ LET p == Made(B, v, a, b) IN
        \E f \in {"make", "into"} : Do([op |-> "slc", fn |-> f, s |-> s, rg |-> Rg(a, b)], Set1(p, s), v.t)
   \/ v.t = "bd" /\ LET p == IntoSharedRange(B, v, a, b) IN Do([op |-> "slc", fn |-> "into_shared", s |-> s, rg |-> Rg(a, b)], Set1(p, s), v.t)
Cut == Dst # 0 /\ \E s \in Slots \ Free : LET v == V[s] IN v.t = "bd" /\ \E m \in {3, v.n} : m <= v.n /\
        LET f == Sliced(B, v, 0, m) r == Made(f.B, v, m, v.n) IN
        IF m = v.n THEN Do([op |-> "take_bytes", s |-> s, d |-> Dst, m |-> m], St(B, [V EXCEPT ![Dst] = v, ![s] = Inl("bd", <<>>, v.ln)]), v.t)
        ELSE Do([op |-> "take_bytes", s |-> s, d |-> Dst, m |-> m], St(r.B, [V EXCEPT ![Dst] = f.v, ![s] = r.v]), v.t)
Turn == \E s \in Slots \ Free : \E to \in ConvsOf(V[s].t) : LET p == Conv(B, V[s], to) IN
          Do([op |-> "conv", s |-> s, to |-> to], Set1(p, s), p.v.t)
Ask  == \E s \in Slots \ Free : V[s].t \in {"sb", "by"} /\ hist[Len(hist)].op # "uniq" /\ Do([op |-> "uniq", s |-> s], St(B, V), V[s].t)
Grow == \E s \in Slots \ Free : V[s].t = "bb" /\ \E w \in {<<1, 2, 3>>, Word(20, 4)} :
          Do([op |-> "push", s |-> s, how |-> "slice", b |-> w], Set1(Push(B, V[s], w), s), "bb")
Expire == \E l \in loans : (\A k \in Slots : l \notin V[k].ln) /\ (\E k \in Slots : V[k] # Nil)
            /\ Do([op |-> "expire", ln |-> l], St(B, [k \in Slots |-> IF V[k].k = "bor" /\ V[k].id = l THEN [V[k] EXCEPT !.w = [i \in DOMAIN @ |-> 126]] ELSE V[k]]), "no")
Next == Len(hist) < Depth /\ (Make \/ Lose \/ Dup \/ Slice \/ Cut \/ Turn \/ Ask \/ Grow \/ Expire)
Spec == Init /\ [][Next]_vars

(* ---- what must hold ---- *)
Shows == \A k \in Slots : V[k].t = S[k].t /\ (V[k] # Nil => Den(B, V[k]) = S[k].b /\ V[k].n = Len(S[k].b))
Holders(id) == Cardinality({k \in Slots : Counted(V[k]) /\ V[k].id = id})
             + Cardinality({j \in DOMAIN B : B[j].rc > 0 /\ Counted(B[j].pay) /\ B[j].pay.id = id})
Counts == \A id \in DOMAIN B : B[id].rc = Holders(id)
Inside == \A k \in Slots : Counted(V[k]) => B[V[k].id].rc > 0 /\ V[k].off + V[k].n <= Len(B[V[k].id].data)
Writable == \A k \in Slots : V[k].k = "bld" /\ V[k].id # 0 => B[V[k].id].rc = 1       \* only an unshared block is written
Lent == \A k \in Slots : V[k].k = "bor" /\ V[k].t = "bd" /\ V[k].n > 0 /\ V[k].id # 0 => V[k].id \in V[k].ln
Correct == Shows /\ Counts /\ Inside /\ Writable /\ Lent
GView == <<B, V, S, loans, Len(hist)>>
Emit == (Gen /\ Len(hist) = Depth /\ (Closing # {} => hist[Depth].op \in Closing)) => PrintT(<<"S", ToJsonObject([ops |-> hist])>>)
=============================================================================
