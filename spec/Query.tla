------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* Calls that read values without leaving any state behind: what each must *)
(* answer, as a relation between its arguments and the observed result.    *)
(* Good(e) is the whole specification; everything is stated on the flat    *)
(* bytes (or characters) of the arguments, never on how a value represents *)
(* them or how a queue is cut into chunks.                                 *)
(***************************************************************************)
EXTENDS Queue     \* IterOk: iterator scripts

HasK(e, f) == f \in DOMAIN e
Is(e, k) == e.r.k = k
Isv(e, v) == e.r.k = "ok" /\ HasK(e.r, "v") /\ e.r.v = v
Fill(x, n) == [k \in 1..n |-> x]
ToSet1(s) == {s[k] : k \in DOMAIN s}
SumLen(ss) == FoldLeft(LAMBDA a, b : a + Len(b), 0, ss)

(***************************************************************************)
(* Comparison and hashing (P10).  Every observed pair of types must agree. *)
(***************************************************************************)
CmpGood(e) ==
  LET v == e.r.v  c == Cmp(e.b, e.b2)  q == e.b = e.b2 IN
  /\ \A k \in DOMAIN v.eqs : v.eqs[k][1] = q /\ v.eqs[k][2] = ~ q
  /\ \A k \in DOMAIN v.ords : LET o == v.ords[k] IN
        /\ o[1] = c /\ o[2] = (c < 0) /\ o[3] = (c <= 0) /\ o[4] = (c > 0) /\ o[5] = (c >= 0)
HashGood(e) ==
  LET v == e.r.v IN
  \A j, k \in DOMAIN v.hash : LET x == v.hash[j] y == v.hash[k] IN
     (x[2] = y[2] /\ (x[1] = y[1] \/ e.b = e.b2)) => x[4] = y[4] /\ x[5] = y[5]

(***************************************************************************)
(* Searching, trimming, splitting single values (P09).                     *)
(***************************************************************************)
\* rows <<hint, piece or none>>; every hint is a true bound on what follows
RowsOk(rows, ps) ==
  /\ Len(rows) = Len(ps) + 1
  /\ \A k \in DOMAIN rows : LET left == Len(ps) + 1 - k h == rows[k][1] IN
       /\ h[1] <= left /\ (h[2] = -1 \/ h[2] >= left)
       /\ rows[k][2] = (IF k > Len(ps) THEN <<>> ELSE <<ps[k]>>)
OnceGood(e, p, nd) == IF p < 0 THEN Is(e, "err") /\ e.r.v = e.b ELSE Isv(e, <<To(e.b, p), From(e.b, p)>>)

(***************************************************************************)
(* Decoding (P12).                                                         *)
(***************************************************************************)
\* items the decoding iterators yield: characters, and one error per byte that starts none
RECURSIVE Items(_, _)
Items(b, i) == IF i >= Len(b) THEN <<>>
   ELSE LET l == CLen(b, i) IN
        IF l = 0 THEN <<[p |-> i, k |-> 0, c |-> 0, l |-> 1]>> \o Items(b, i + 1)
        ELSE <<[p |-> i, k |-> 1, c |-> CVal(b, i), l |-> l]>> \o Items(b, i + l)
ErrLenOk(x, rest) == x >= 1 /\ x <= 4 /\ x <= rest
U8IterGood(e) ==
  LET it == Items(e.b, 0)  v == e.r.v  n == Len(e.b) IN
  /\ Len(v) = n + 3
  /\ \A k \in DOMAIN v : LET r == v[k] left == IF k > Len(it) THEN 0 ELSE Len(it) + 1 - k IN
       /\ r[1] <= left /\ (r[2] = -1 \/ r[2] >= left) /\ r[3] <= left /\ r[4] >= left
       /\ IF k > Len(it) THEN r[5] = 2
          ELSE /\ r[5] = it[k].k /\ r[6] = it[k].p
               /\ IF it[k].k = 1 THEN r[7] = it[k].c ELSE ErrLenOk(r[7], n - it[k].p)
U8ConstGood(e) ==
  LET it == Items(e.b, 0)  v == e.r.v  n == Len(e.b) IN
  /\ Len(v) = n + 2
  /\ \A k \in DOMAIN v : LET r == v[k] IN
       IF k > Len(it) THEN r = <<0, n, 0, 0>>
       ELSE /\ r[1] = it[k].k /\ r[2] = it[k].p /\ r[4] = n - it[k].p - it[k].l
            /\ IF it[k].k = 1 THEN r[3] = it[k].c ELSE ErrLenOk(r[3], n - it[k].p)

(***************************************************************************)
(* Constant helpers and inline chunks (P22).                               *)
(***************************************************************************)
CstGood(e) ==
  CASE e.fn = "slice" -> LET a == RLo(e.rg) z == RHi(e.rg, Len(e.b)) IN
            IF InRange(e.rg, Len(e.b)) THEN Isv(e, Sub(e.b, a, z)) ELSE Is(e, "none")
    [] e.fn = "slice_str" -> LET a == RLo(e.rg) z == RHi(e.rg, Len(e.b)) no == <<FALSE, TRUE, FALSE, TRUE, FALSE>> IN
            IF ~ InRange(e.rg, Len(e.b)) THEN Is(e, "oob") /\ e.r.v = no
            ELSE IF Boundary(e.b, a) /\ Boundary(e.b, z) THEN Isv(e, <<Sub(e.b, a, z), <<TRUE, FALSE, TRUE, FALSE, TRUE>>>>)
            ELSE Is(e, "inv") /\ e.r.v = no
    [] e.fn = "find" -> LET p == Find(e.b, e.nd) IN IF p < 0 THEN Is(e, "none") ELSE Isv(e, p)
    [] e.fn = "once_byte" -> LET p == FirstFrom(e.b, LAMBDA c : c = e.m, 0) IN
            IF p < 0 THEN Is(e, "none") ELSE Isv(e, <<To(e.b, p), From(e.b, p)>>)
    [] e.fn \in {"once", "once_str"} -> LET p == Find(e.b, e.nd) IN
            IF p < 0 THEN Is(e, "none") ELSE Isv(e, <<To(e.b, p), From(e.b, p)>>)
    [] e.fn \in {"or_bytes", "or_str"} -> Isv(e, IF e.some THEN e.b ELSE e.nd)
    [] e.fn = "build" -> LET c == Cat(e.parts) IN
            IF Len(c) <= e.m THEN Isv(e, <<c \o Fill(238, e.m - Len(c)), Len(c)>>) ELSE Is(e, "panic")
    [] e.fn = "concat" -> Isv(e, Cat(e.parts))
    [] e.fn = "eq" -> Isv(e, e.b = e.nd)
    [] OTHER -> FALSE
ChunkMax == 14
ChP(c) == <<c, Len(c), c = <<>>, c, c>>
ChunkGood(e) ==
  LET c == e.b  n == Len(c) IN
  IF n > ChunkMax THEN Is(e, "panic")
  ELSE CASE e.fn = "id" -> Isv(e, <<ChP(c)>>)
    [] e.fn = "write" -> IF n + Len(e.nd) <= ChunkMax THEN Isv(e, <<ChP(c \o e.nd)>>)
                         ELSE Is(e, "err") /\ e.r.v = <<ChP(c)>>
    [] OTHER -> IF ~ InRange(e.rg, n) THEN Is(e, "panic") /\ (e.fn = "make" => HasK(e.r, "v") /\ e.r.v = <<ChP(c)>>)
                ELSE LET x == Sub(c, RLo(e.rg), RHi(e.rg, n)) IN
                     IF e.fn = "sliced" THEN Isv(e, <<ChP(c), ChP(x)>>) ELSE Isv(e, <<ChP(x)>>)

(***************************************************************************)
(* HTTP bodies (P15).  Content as runs <<byte, count>>.                    *)
(***************************************************************************)
FrameMax == 65535
Norm(rs) == FoldLeft(LAMBDA a, r : IF a # <<>> /\ a[Len(a)][1] = r[1]
                                    THEN [a EXCEPT ![Len(a)] = <<r[1], a[Len(a)][2] + r[2]>>] ELSE Append(a, r), <<>>, rs)
RLen(rs) == FoldLeft(LAMBDA a, r : a + r[2], 0, rs)
HttpGood(e) ==
  LET p == e.r.v.p
      all == Norm(FlattenSeq(e.chunks))
      total == RLen(all)
      nd == Cardinality({k \in DOMAIN p : p[k][5][1] = "d"})
      sent == [k \in 1..Len(p) + 1 |-> RLen(FlattenSeq([j \in 1..k - 1 |-> p[j][5][2]]))]
  IN /\ e.r.v.t = 0
     /\ Len(p) = nd + 2
     /\ \A k \in DOMAIN p : LET r == p[k] left == total - sent[k] IN
          /\ r[1] = left /\ r[2] = left /\ r[3] = left
          /\ r[4] = (left = 0)
          /\ IF k <= nd THEN r[5][1] = "d" /\ RLen(r[5][2]) > 0 /\ RLen(r[5][2]) <= FrameMax
             ELSE r[5][1] = "n"
     /\ Norm(FlattenSeq([j \in 1..nd |-> p[j][5][2]])) = all

(***************************************************************************)
(* Serialization (P18).                                                    *)
(***************************************************************************)
SerGood(e) ==
  LET v == e.r.v IN
  /\ v.call = <<IF e.t = "sd" THEN "str" ELSE "bytes", e.b>>
  /\ v.same
  /\ \A k \in DOMAIN v.back : v.back[k] = <<e.b>>
  /\ v.rd = <<e.b>>
\* what a form offers: k = "must" (accepted, with content v), "may" (accepted with v, or refused), "err"
Offer(k, v) == [k |-> k, v |-> v]
BytesForm == {"bbytes", "bytes", "bytebuf"}
StrForm == {"bstr", "str", "string"}
RECURSIVE Leaf(_, _)
Leaf(text, f) ==
  LET k == f[1] IN
  CASE k \in BytesForm -> IF ~ text THEN Offer("must", f[2]) ELSE IF Valid8(f[2]) THEN Offer("may", f[2]) ELSE Offer("err", <<>>)
    [] k \in StrForm -> IF text THEN Offer("must", f[2]) ELSE Offer("may", f[2])
    [] k = "char" -> Offer("may", IF f[2] = <<>> THEN <<120>> ELSE To(f[2], Max2(1, CLen(f[2], 0))))
    [] k = "nums" -> IF text \/ \E j \in DOMAIN f[2] : f[2][j] < 0 \/ f[2][j] > 255 THEN Offer("err", <<>>)
                     ELSE Offer("must", f[2])
    [] k = "seq" -> LET s == f[2] IN
         IF text \/ \E j \in DOMAIN s : s[j][1] \notin {"num", "u8"} THEN Offer("err", <<>>)
         ELSE LET ns == [j \in DOMAIN s |-> IF s[j][1] = "u8" THEN 7 ELSE s[j][2]] IN
              IF \E j \in DOMAIN ns : ns[j] > 255 THEN Offer("err", <<>>) ELSE Offer("must", ns)
    [] k = "newtype" -> LET o == Leaf(text, f[2]) IN IF o.k = "must" THEN Offer("may", o.v) ELSE o
    [] OTHER -> Offer("err", <<>>)
OfferOk(e, o) == CASE o.k = "must" -> Isv(e, o.v) [] o.k = "may" -> Is(e, "err") \/ Isv(e, o.v) [] OTHER -> Is(e, "err")
Wrap(o) == [o EXCEPT !.v = <<o.v>>]
Weak(o) == IF o.k = "must" THEN [o EXCEPT !.k = "may"] ELSE o
OptOffer(text, f) == CASE f[1] \in {"none", "unit"} -> Offer("must", <<>>)
                       [] f[1] = "some" -> Wrap(Leaf(text, f[2]))
                       [] OTHER -> Weak(Wrap(Leaf(text, f)))
VecOffer(text, f) ==
  IF f[1] # "seq" THEN Offer("err", <<>>)
  ELSE LET os == [j \in DOMAIN f[2] |-> Leaf(text, f[2][j])]
           ks == {os[j].k : j \in DOMAIN os}
       IN Offer(IF "err" \in ks THEN "err" ELSE IF "may" \in ks THEN "may" ELSE "must", [j \in DOMAIN os |-> os[j].v])
TextT(t) == t \in {"sd", "sds", "sdo", "sdn", "sdv"}
DeGood(e) ==
  IF e.form[1] = "any" THEN (Is(e, "err") \/ (Is(e, "ok") /\ ~ TextT(e.t)))
  ELSE LET x == TextT(e.t) IN
       CASE e.t \in {"bd", "bds", "sb", "sd", "sds"} -> OfferOk(e, Leaf(x, e.form))
         [] e.t \in {"bdo", "sdo", "bdn", "sdn"} -> OfferOk(e, OptOffer(x, e.form))
         [] OTHER -> OfferOk(e, VecOffer(x, e.form))

(***************************************************************************)
(* Arbitrary generation (P20): two runs on the same entropy, with fresh    *)
(* memory filled differently, agree; the value satisfies its invariants.   *)
(***************************************************************************)
ArbOne(e, x) ==
  /\ x.o.k = "ok" =>
       LET v == x.o.v IN
       /\ SumLen(v[1]) = v[2] /\ v[4] = (v[2] = 0) /\ Len(v[1]) = v[3]
       /\ e.t \in {"bq", "sq"} => \A k \in DOMAIN v[1] : v[1][k] # <<>>
       /\ e.t \in {"sd", "sq"} => \A k \in DOMAIN v[1] : Valid8(v[1][k])
  /\ (x.o.k = "ok" /\ x.used >= 0) =>
       /\ x.used >= Min2(x.lo, Len(e.b))
       /\ x.hi = -1 \/ x.used <= x.hi
  /\ x.hi = -1 \/ x.lo <= x.hi
ArbGood(e) == e.r.v[1] = e.r.v[2] /\ ArbOne(e, e.r.v[1])

(***************************************************************************)
(* Rendering (P21).                                                        *)
(***************************************************************************)
HexD(d, up) == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d
Hex(b, up) == [k \in 1..2 * Len(b) |-> LET x == b[(k + 1) \div 2] IN IF k % 2 = 1 THEN HexD(x \div 16, up) ELSE HexD(x % 16, up)]
ZeroPad(s, w) == IF w > Len(s) THEN Fill(48, w - Len(s)) \o s ELSE s
EscB(x) == CASE x = 92 -> <<92, 92>> [] x = 34 -> <<92, 34>> [] x = 10 -> <<92, 110>> [] x = 13 -> <<92, 114>> [] x = 9 -> <<92, 116>>
             [] x >= 32 /\ x < 127 -> <<x>>
             [] OTHER -> <<92, 120, HexD(x \div 16, FALSE), HexD(x % 16, FALSE)>>
Esc(b) == Cat([k \in 1..Len(b) |-> EscB(b[k])])
Lit(b) == <<98, 34>> \o Esc(b) \o <<34>>
\* reading an escaped literal's body back
UnHexD(c) == IF c >= 97 THEN c - 87 ELSE IF c >= 65 THEN c - 55 ELSE c - 48
RECURSIVE UnEsc(_)
UnEsc(s) == IF s = <<>> THEN <<>>
  ELSE IF s[1] # 92 THEN <<s[1]>> \o UnEsc(Tail(s))
  ELSE CASE s[2] = 110 -> <<10>> \o UnEsc(From(s, 2)) [] s[2] = 114 -> <<13>> \o UnEsc(From(s, 2)) [] s[2] = 116 -> <<9>> \o UnEsc(From(s, 2))
         [] s[2] = 120 -> <<16 * UnHexD(s[3]) + UnHexD(s[4])>> \o UnEsc(From(s, 4))
         [] OTHER -> <<s[2]>> \o UnEsc(From(s, 2))
\* a formatter with fill character, alignment, width and precision (counted in characters) applied to text
PadTo(b, al, w, p) ==
  LET cs == CharVals(b)
      t == IF p >= 0 /\ p < Len(cs) THEN To(cs, p) ELSE cs
      pad == IF w > Len(t) THEN w - Len(t) ELSE 0
      fc == IF al \in {"*<", "*^"} THEN 42 ELSE IF al = "e>" THEN 233 ELSE 32
      left == CASE al \in {">", "e>"} -> pad [] al \in {"^", "*^"} -> pad \div 2 [] OTHER -> 0
      out == Fill(fc, left) \o t \o Fill(fc, pad - left)
  IN Cat([k \in 1..Len(out) |-> EncC(out[k])])
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RPad3(s) == IF Len(s) < 3 THEN Fill(32, 3 - Len(s)) \o s ELSE s
\* the debug form of text: quoted, with the escapes of string literals (characters the drivers use)
HexMin(x) == LET w == CASE x < 16 -> 1 [] x < 256 -> 2 [] x < 4096 -> 3 [] x < 65536 -> 4 [] x < 1048576 -> 5 [] OTHER -> 6 IN
             [k \in 1..w |-> HexD((x \div (16 ^ (w - k))) % 16, FALSE)]
Unprintable(c) == c < 32 \/ c \in {127, 128, 133, 8232, 55295, 57344, 65279, 65535, 1114111}
EscC(c) == CASE c = 92 -> <<92, 92>> [] c = 34 -> <<92, 34>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 0 -> <<92, 48>>
             [] Unprintable(c) -> <<92, 117, 123>> \o HexMin(c) \o <<125>>
             [] OTHER -> EncC(c)
DbgText(b) == LET cs == CharVals(b) IN <<34>> \o Cat([k \in 1..Len(cs) |-> EscC(cs[k])]) \o <<34>>
RenderGood(e) ==
  CASE e.fn = "lhex" -> Isv(e, ZeroPad(Hex(e.b, FALSE), e.w))
    [] e.fn = "uhex" -> Isv(e, ZeroPad(Hex(e.b, TRUE), e.w))
    [] e.fn = "dbg" -> IF e.t = "sd" THEN Isv(e, DbgText(e.b))
                           ELSE IF e.t = "tb" THEN Is(e, "ok") /\ Find(e.r.v, DbgText(e.b)) >= 0 ELSE IF e.t = "sb" THEN Is(e, "ok") /\ Find(e.r.v, <<100, 97, 116, 58, 32>> \o Lit(e.b)) >= 0 ELSE Isv(e, Lit(e.b))
    [] e.fn = "esc" -> Isv(e, Esc(e.b))
    [] e.fn = "disp" -> Isv(e, PadTo(e.b, e.al, e.w, e.p))
    [] e.fn = "fmt" -> Isv(e, <<97>> \o e.b \o <<195, 169>> \o RPad3(Dec(e.m)) \o <<45>> \o e.b)
    [] e.fn = "lit" -> Isv(e, <<112, 108, 97, 105, 110, 32, 195, 169>>)
    [] OTHER -> FALSE

(***************************************************************************)
(* Parser-combinator input traits (P17).                                   *)
(***************************************************************************)
LowB(x) == IF x >= 65 /\ x <= 90 THEN x + 32 ELSE x
\* full lower-casing of the characters the drivers use
LowC(c) == CASE c = 304 -> <<105, 775>> [] c = 8490 -> <<107>> [] c = 8486 -> <<969>> [] c = 937 -> <<969>> [] c = 201 -> <<233>> [] OTHER -> <<LowB(c)>>
SamePrefix(a, c, Eq(_, _)) == \A k \in 1..Min2(Len(a), Len(c)) : Eq(a[k], c[k])
CmpRes(b, nd, nc, chars) ==
  LET same == IF ~ nc THEN SamePrefix(b, nd, LAMBDA x, y : x = y)
              ELSE IF chars THEN SamePrefix(CharVals(b), CharVals(nd), LAMBDA x, y : LowC(x) = LowC(y))
              ELSE SamePrefix(b, nd, LAMBDA x, y : LowB(x) = LowB(y))
  IN IF ~ same THEN "err" ELSE IF Len(b) < Len(nd) THEN "inc" ELSE "ok"
\* hexadecimal dumps: values show address, bytes and characters line by line; queues the digits only
HexN(x, w) == [k \in 1..w |-> HexD((x \div (16 ^ (w - k))) % 16, FALSE)]
RECURSIVE HexLines(_, _, _)
HexLines(b, w, at) ==
  IF b = <<>> THEN <<>>
  ELSE LET c == To(b, Min2(w, Len(b))) IN
       HexN(at, 8) \o <<9>> \o Cat([k \in 1..w |-> IF k > Len(c) THEN <<32, 32, 32>> ELSE HexN(c[k], 2) \o <<32>>]) \o <<9>>
       \o [k \in 1..Len(c) |-> IF c[k] >= 32 /\ c[k] <= 126 THEN c[k] ELSE 46] \o <<10>> \o HexLines(From(b, Len(c)), w, at + w)
HexFlat(b, w) == Cat([k \in 1..Len(b) |-> (IF (k - 1) % w = 0 THEN <<10>> ELSE <<>>) \o HexN(b[k], 2)])
NomGood(e) ==
  LET b == e.b  n == Len(b)  text == e.t \in {"sd", "sq"}
      posAt(m) == m <= n /\ (text => Boundary(b, m))
      set == IF HasK(e, "set") THEN ToSet1(e.set) ELSE {}
      p == IF text THEN FirstCharFrom(b, LAMBDA c : c \in set, 0) ELSE FirstFrom(b, LAMBDA c : c \in set, 0)
      chs == IF text THEN [k \in 1..Len(Chars(b)) |-> <<Chars(b)[k].p, Chars(b)[k].c>>] ELSE [k \in 1..n |-> <<k - 1, b[k]>>]
      parts(q) == Isv(e, <<From(b, q), To(b, q)>>)       \* rest, then what was taken
      soft == Is(e, "err") /\ e.r.v = <<b, TRUE>>        \* recoverable error of the given kind on the whole input
      more == Is(e, "inc") /\ e.r.v = 1
  IN CASE e.fn \in {"cmp", "cmpnc"} -> Isv(e, CmpRes(b, e.nd, e.fn = "cmpnc", text /\ e.at \in {"str", "sd", "rsd"}))
       [] e.fn = "find" -> LET q == Find(b, e.nd) IN IF q < 0 THEN Is(e, "none") ELSE Isv(e, q)
       [] e.fn = "token" -> Isv(e, IF e.at \in {"u8", "ru8"} THEN e.m \in ToSet1(b) ELSE e.m \in {chs[k][2] : k \in DOMAIN chs})
       [] e.fn \in {"hex", "hexf"} -> LET at == IF e.fn = "hex" THEN 0 ELSE e.m IN
              Isv(e, IF e.t \in {"bq", "sq"} THEN HexFlat(From(b, at), e.w) ELSE HexLines(b, e.w, at))
       [] e.fn = "len" -> Isv(e, n)
       [] e.fn = "bytes" -> Isv(e, b)
       [] e.fn = "take" -> IF posAt(e.m) THEN Isv(e, To(b, e.m)) ELSE Is(e, "panic")
       [] e.fn = "take_split" -> IF posAt(e.m) THEN parts(e.m) ELSE Is(e, "panic")
       [] e.fn = "position" -> IF p < 0 THEN Is(e, "none") ELSE Isv(e, p)
       [] e.fn = "slice_index" -> IF e.m <= Len(chs) THEN Isv(e, IF e.m = Len(chs) THEN n ELSE chs[e.m + 1][1])
                                  ELSE IF text THEN Is(e, "unknown") ELSE Is(e, "size") /\ e.r.v = e.m - n
       [] e.fn = "indices" -> Isv(e, chs)
       [] e.fn = "elements" -> Isv(e, [k \in DOMAIN chs |-> chs[k][2]])
       [] e.fn = "split" -> IF p < 0 THEN more ELSE parts(p)
       [] e.fn = "split1" -> IF p < 0 THEN more ELSE IF p = 0 THEN soft ELSE parts(p)
       [] e.fn = "splitc" -> IF p < 0 THEN parts(n) ELSE parts(p)
       [] e.fn = "split1c" -> IF p < 0 THEN (IF n = 0 THEN soft ELSE parts(n)) ELSE IF p = 0 THEN soft ELSE parts(p)
       [] e.fn = "slice" -> LET a == RLo(e.rg) z == RHi(e.rg, n) IN
              IF InRange(e.rg, n) /\ (text => Boundary(b, a) /\ Boundary(b, z)) THEN Isv(e, Sub(b, a, z)) ELSE Is(e, "panic")
       [] OTHER -> FALSE

Good(e) ==
  CASE e.op = "cmp" -> Is(e, "ok") /\ CmpGood(e) /\ HashGood(e)
    [] e.op = "starts" -> Isv(e, Starts(e.b, e.nd))
    [] e.op = "ends" -> Isv(e, Ends(e.b, e.nd))
    [] e.op = "trim" -> LET x == CASE e.m = 0 -> TrimL(TrimR(e.b)) [] e.m = 1 -> TrimL(e.b) [] OTHER -> TrimR(e.b) IN Isv(e, <<x, x>>)
    [] e.op = "once" -> OnceGood(e, Find(e.b, e.nd), e.nd)
    [] e.op = "split" -> Is(e, "ok") /\ e.r.v.fin /\ RowsOk(e.r.v.p, Pieces(e.b, e.nd, 0))
    [] e.op = "iter" -> Is(e, "ok") /\ IF e.t = "bd" THEN IterOk(e.b, e.steps, e.r.v, FALSE) ELSE IterOk(CharVals(e.b), e.steps, e.r.v, FALSE)
    [] e.op = "u8next" -> LET l == CLen(e.b, 0) IN Isv(e, IF l = 0 THEN <<0, 0>> ELSE <<CVal(e.b, 0), l>>)
    [] e.op = "u8iter" -> Is(e, "ok") /\ U8IterGood(e)
    [] e.op = "u8const" -> Is(e, "ok") /\ U8ConstGood(e)
    [] e.op = "cst" -> CstGood(e)
    [] e.op = "chunk" -> ChunkGood(e)
    [] e.op = "http" -> Is(e, "ok") /\ HttpGood(e)
    [] e.op = "ser" -> Is(e, "ok") /\ SerGood(e)
    [] e.op \in {"de", "dejson"} -> DeGood(e)
    [] e.op = "arb" -> Is(e, "ok") /\ ArbGood(e)
    [] e.op = "render" -> RenderGood(e)
    [] e.op = "nom" -> NomGood(e)
    [] OTHER -> FALSE
=============================================================================
