------------------------------ MODULE InternSeq -----------------------------
(***************************************************************************)
(* Every short history of interners, one call after the other: interners   *)
(* with and without a map, clones that share it, entries, clearing and     *)
(* dropping, and values that outlive all of that.  The machine (cells that *)
(* point to counted maps, entries and values that hold counted storages)   *)
(* gives the outcomes Intern states, and holds on to nothing that is no    *)
(* longer reachable.  The histories are scripts.                           *)
(***************************************************************************)
EXTENDS Intern, TLC, Json
CONSTANTS Depth, Gen,
          Own       \* a value handed out holds its storage (else: it is borrowed from the map)
VARIABLES cell, maps, ent, refs, val, I, M, V, hist, good
vars == <<cell, maps, ent, refs, val, I, M, V, hist, good>>
(* cell: slot -> -1 no interner / 0 no map yet / map; maps: handles;       *)
(* ent: map -> set of <<content, storage>>; refs: storage -> holders;      *)
(* val: slot -> storage (0: none or inline).                               *)
Keys == {[j \in 1..15 |-> 97], [j \in 1..15 |-> IF j = 15 THEN 122 ELSE 97], [j \in 1..16 |-> 97], <<97, 98>>}
Slots == 1..2
Vals == 1..2
Init == /\ cell = [k \in Slots |-> -1] /\ maps = <<>> /\ ent = <<>> /\ refs = <<>> /\ val = [k \in Vals |-> 0]
        /\ I = [k \in 1..NI |-> NoI] /\ M = {} /\ V = [k \in 1..NV |-> NoV] /\ hist = <<>> /\ good = TRUE
Rel(r, ss) == [x \in DOMAIN r |-> r[x] - Cardinality({y \in ss : y[2] = x})]
(* The specification's step for call e with the machine's result r.        *)
Told(e, r) == \E o \in {Outcome(I, M, V, e @@ [r |-> r], Len(hist) + 1)} :
                 good' = (good /\ o.ok) /\ I' = o.I /\ M' = o.M /\ V' = o.V /\ hist' = Append(hist, e)
Ok == [k |-> "ok"]
New == \E d \in Slots : cell[d] = -1 /\ (\A x \in Slots : x < d => cell[x] # -1) /\ \E h \in {"new", "const"} :
         /\ Told([op |-> "inew", d |-> d, how |-> h, m |-> 15], Ok)
         /\ IF h = "new" THEN maps' = Append(maps, 1) /\ ent' = Append(ent, {}) /\ cell' = [cell EXCEPT ![d] = Len(maps) + 1]
            ELSE cell' = [cell EXCEPT ![d] = 0] /\ UNCHANGED <<maps, ent>>
         /\ UNCHANGED <<refs, val>>
Clone == \E s \in Slots, d \in Slots : cell[s] # -1 /\ cell[d] = -1 /\ Told([op |-> "iclone", s |-> s, d |-> d], Ok) /\ UNCHANGED <<refs, val>> /\
         IF cell[s] = 0 THEN maps' = Append(maps, 2) /\ ent' = Append(ent, {}) /\ cell' = [cell EXCEPT ![s] = Len(maps) + 1, ![d] = Len(maps) + 1]
         ELSE maps' = [maps EXCEPT ![cell[s]] = @ + 1] /\ cell' = [cell EXCEPT ![d] = cell[s]] /\ UNCHANGED ent
Clear == \E s \in Slots : cell[s] # -1 /\ Told([op |-> "iclear", s |-> s], Ok) /\ UNCHANGED <<maps, cell, val>> /\
         IF cell[s] = 0 THEN UNCHANGED <<ent, refs>> ELSE ent' = [ent EXCEPT ![cell[s]] = {}] /\ refs' = Rel(refs, ent[cell[s]])
Gone == \E s \in Slots : cell[s] # -1 /\ Told([op |-> "idrop", s |-> s], Ok) /\ cell' = [cell EXCEPT ![s] = -1] /\ UNCHANGED val /\
         IF cell[s] = 0 THEN UNCHANGED <<ent, refs, maps>>
         ELSE LET m == cell[s] IN maps' = [maps EXCEPT ![m] = @ - 1] /\
              IF maps[m] = 1 THEN ent' = [ent EXCEPT ![m] = {}] /\ refs' = Rel(refs, ent[m]) ELSE UNCHANGED <<ent, refs>>
Let(r, v) == IF v # 0 /\ Own THEN [r EXCEPT ![v] = @ - 1] ELSE r          \* a value is dropped
Call == \E s \in Slots, d \in Vals, how \in {"intern", "always", "get"}, b \in Keys, ty \in {"bd", "sd"} :
         /\ cell[s] # -1 /\ (ty = "sd" <=> (Len(hist) + Len(b)) % 3 = 0) /\ (d = 2 => val[1] # 0)
         /\ LET e == [op |-> "intern", s |-> s, d |-> d, how |-> how, t |-> ty, rep |-> (Len(hist) * 3 + Len(b)) % 9, b |-> b]
                m == cell[s]
                found == IF m = 0 THEN {} ELSE {x \in ent[m] : x[1] = b}
                plain == how = "intern" /\ Len(b) <= Inline
                refuse == (how = "intern" /\ Len(b) > 15) \/ (how = "get" /\ found = {})
                h == 1 + (IF Own THEN 1 ELSE 0)
            IN IF refuse \/ plain
               THEN /\ Told(e, [k |-> IF plain THEN "ok" ELSE "err", v |-> <<b, 0>>])
                    /\ val' = [val EXCEPT ![d] = 0] /\ refs' = Let(refs, val[d]) /\ UNCHANGED <<cell, maps, ent>>
               ELSE LET m2 == IF m = 0 THEN Len(maps) + 1 ELSE m
                        sid == IF found # {} THEN (CHOOSE x \in found : TRUE)[2] ELSE Len(refs) + 1
                        r2 == IF found # {} THEN [refs EXCEPT ![sid] = @ + h - 1] ELSE Append(refs, h)
                    IN /\ Told(e, [k |-> "ok", v |-> <<b, sid>>])
                       /\ val' = [val EXCEPT ![d] = sid] /\ refs' = Let(r2, val[d])
                       /\ maps' = IF m = 0 THEN Append(maps, 1) ELSE maps
                       /\ cell' = [cell EXCEPT ![s] = m2]
                       /\ ent' = IF m = 0 THEN Append(ent, {<<b, sid>>}) ELSE [ent EXCEPT ![m] = @ \cup {<<b, sid>>}]
VDrop == \E d \in Vals : V[d].t # "no" /\ Told([op |-> "vdrop", s |-> d], Ok) /\ val' = [val EXCEPT ![d] = 0] /\ refs' = Let(refs, val[d]) /\ UNCHANGED <<cell, maps, ent>>
Next == Len(hist) < Depth /\ (New \/ Clone \/ Clear \/ Gone \/ Call \/ VDrop)
Spec == Init /\ [][Next]_vars

Held(x) == Cardinality({<<m, y>> \in (DOMAIN ent) \X (UNION {ent[z] : z \in DOMAIN ent}) : y \in ent[m] /\ y[2] = x}) + Cardinality({d \in Vals : val[d] = x})
Counts == \A x \in DOMAIN refs : refs[x] >= 0 /\ (refs[x] = 0 <=> Held(x) = 0)
Maps == \A m \in DOMAIN maps : maps[m] = Cardinality({k \in Slots : cell[k] = m})
Same == \A k \in Slots, j \in Slots : cell[k] # -1 /\ cell[j] # -1 => ((I[k].g = I[j].g) => (k = j \/ cell[k] = cell[j]))
Correct == good /\ Counts /\ Maps /\ Same
GView == <<cell, maps, ent, refs, val, I, M, V, good, Len(hist)>>
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"S", ToJsonObject([ops |-> hist])>>)
=============================================================================
