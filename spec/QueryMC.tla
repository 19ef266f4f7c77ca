------------------------------ MODULE QueryMC ------------------------------
(***************************************************************************)
(* Small scope, complete: the calls of module Query with every argument    *)
(* within small bounds (every byte value, every short content, every bound *)
(* and needle), and laws that characterise the stated answers independently*)
(* of the operators that state them.  Emit prints the calls as scripts for *)
(* the library; the way contents are represented and cut into chunks       *)
(* rotates from call to call.                                              *)
(***************************************************************************)
EXTENDS Query, TLC, Json
CONSTANTS Mode,     \* which family of calls
          MaxLen,   \* longest exhaustively enumerated content
          Gen
VARIABLES g, c      \* a group of calls, one call of it
vars == <<g, c>>

(* ---- contents ---- *)
Str(A, n) == UNION {[1..k -> A] : k \in 0..n}
Txt(A, n) == {Cat(x) : x \in Str(A, n)}
LA == <<97>> LE == <<195, 169>> LE2 == <<195, 168>> LEU == <<195, 137>> EUR == <<226, 130, 172>> SMI == <<240, 159, 152, 128>>
Rp(x, n) == FlattenSeq([i \in 1..n |-> <<x>>])
Set1(b, i, x) == [b EXCEPT ![i] = x]
G(k, b) == [k |-> k, b |-> b]
Huge == 2000000000
RG(sk, sv, ek, ev) == [s |-> <<sk, sv>>, e |-> <<ek, ev>>]
Grid(n) == SetToSeq({RG(a[1], a[2], b[1], b[2]) : a \in {<<"i", k>> : k \in 0..n + 1} \cup {<<"x", k>> : k \in {0, n, Huge}} \cup {<<"u", 0>>},
                                                   b \in {<<"x", k>> : k \in 0..n + 1} \cup {<<"i", k>> : k \in {0, Max2(n, 1) - 1, n, Huge}} \cup {<<"u", 0>>, <<"x", Huge>>}})
For(S, F(_)) == LET s == SetToSeq(S) IN [k \in DOMAIN s |-> F(s[k])]
Sum(ss) == FlattenSeq(ss)

(* ---- constant helpers and inline chunks ---- *)
ConstGroups == {G("bytes", b) : b \in Str({97, 98}, MaxLen)} \cup {G("text", b) : b \in Txt({LA, LE, EUR}, Min2(MaxLen, 3))}
          \cup {G("chunk", [i \in 1..l |-> 40 + i]) : l \in {0, 1, 2, 7, 13, 14, 15, 20}} \cup {G("long", Rp(97, l)) : l \in {15, 16, 127, 128, 129, 256, 300}} \cup {G("parts", <<>>)}
ChunkHow(l) == CASE l = 0 -> {"slice", "default", "a0"} [] l = 1 -> {"slice", "byte", "a1"} [] l = 14 -> {"slice", "a14"} [] l = 15 -> {"slice", "a15"} [] OTHER -> {"slice"}
ConstCalls(x) ==
  LET b == x.b n == Len(x.b) nds == Str({97, 98}, 3) IN
  CASE x.k = "bytes" ->
         Sum(<<For({"find", "once", "or_bytes"} \X nds, LAMBDA a : IF a[1] = "or_bytes" THEN [op |-> "cst", fn |-> a[1], b |-> b, nd |-> a[2], some |-> Len(a[2]) % 2 = 0] ELSE [op |-> "cst", fn |-> a[1], b |-> b, nd |-> a[2]]),
               For({"starts", "ends"} \X nds, LAMBDA a : [op |-> a[1], t |-> "const", b |-> b, nd |-> a[2], rep |-> 0]),
               For(Str({97, 98}, MaxLen), LAMBDA a : [op |-> "cst", fn |-> "eq", b |-> b, nd |-> a]),
               For({97, 98, 99}, LAMBDA a : [op |-> "cst", fn |-> "once_byte", b |-> b, m |-> a]),
               For((0..n + 2) \X (0..n + 2) \cup {<<0, Huge>>, <<Huge, Huge>>, <<n, Huge>>, <<Huge, 0>>}, LAMBDA a : [op |-> "cst", fn |-> "slice", b |-> b, rg |-> RG("i", a[1], "x", a[2])])>>)
    [] x.k = "text" ->
         Sum(<<For((0..n + 2) \X (0..n + 2) \cup {<<0, Huge>>, <<Huge, Huge>>, <<n, Huge>>}, LAMBDA a : [op |-> "cst", fn |-> "slice_str", b |-> b, rg |-> RG("i", a[1], "x", a[2])]),
               For(Txt({LA, LE, EUR}, 2), LAMBDA a : [op |-> "cst", fn |-> "once_str", b |-> b, nd |-> a]),
               For(Txt({LA, LE}, 2), LAMBDA a : [op |-> "cst", fn |-> "or_str", b |-> b, nd |-> a, some |-> Len(a) % 2 = 1])>>)
    [] x.k = "chunk" ->
         Sum(<<For(ChunkHow(n), LAMBDA h : [op |-> "chunk", how |-> h, fn |-> "id", b |-> b]),
               For({"sliced", "into", "make"}, LAMBDA f : [op |-> "chunk", how |-> "slice", fn |-> f, b |-> b, rg |-> RG("u", 0, "u", 0)]),
               IF n > 14 THEN <<>> ELSE Sum(For({"sliced", "into", "make"}, LAMBDA f : LET gr == Grid(Min2(n, 3)) \o (IF n > 3 THEN SetToSeq({RG("i", a, "x", z) : a \in {0, 1, n - 1, n, n + 1}, z \in {n - 1, n, n + 1}}) ELSE <<>>)
                    IN [k \in DOMAIN gr |-> [op |-> "chunk", how |-> "slice", fn |-> f, b |-> b, rg |-> gr[k]]])),
               For({w \in {<<>>, LA, LE, EUR, SMI, Rp(97, 6), Rp(97, 7), Rp(97, 12), Rp(97, 13), Rp(97, 14), Rp(97, 15), Rp(97, 300)} : TRUE}, LAMBDA w : [op |-> "chunk", how |-> "slice", fn |-> "write", b |-> b, nd |-> w])>>)
    [] x.k = "long" ->
         LET ps == {1, 2, n \div 2, n - 1, n} IN
         Sum(<<For(ps, LAMBDA i : [op |-> "cst", fn |-> "eq", b |-> b, nd |-> Set1(b, i, 98)]), For({0, n - 1, n + 1, n % 128, n % 256}, LAMBDA l : [op |-> "cst", fn |-> "eq", b |-> b, nd |-> Rp(97, l)]),
               For({"starts", "ends"} \X ps, LAMBDA a : [op |-> a[1], t |-> "const", b |-> b, nd |-> Set1(b, a[2], 98), rep |-> 0]),
               For({"starts", "ends"} \X {0, 1, n - 1, n, n + 1}, LAMBDA a : [op |-> a[1], t |-> "const", b |-> b, nd |-> Rp(97, a[2]), rep |-> 0]),
               For(ps, LAMBDA i : [op |-> "cst", fn |-> "find", b |-> Set1(b, i, 98), nd |-> <<98>>]), For(ps, LAMBDA i : [op |-> "cst", fn |-> "once", b |-> Set1(b, i, 98), nd |-> <<97, 98>>])>>)
    [] OTHER -> Sum(<<For(0..9, LAMBDA k : [op |-> "cst", fn |-> "build", parts |-> CASE k = 0 -> <<>> [] k = 1 -> <<<<>>, <<>>>> [] k = 2 -> <<<<1>>>> [] k = 3 -> <<<<1>>, <<2>>>> [] k = 4 -> <<<<1, 2, 3>>, <<4, 5>>>>
                                [] k = 5 -> <<<<1, 2, 3>>, <<4, 5, 6>>>> [] k = 6 -> <<Rp(7, 8)>> [] k = 7 -> <<Rp(7, 8), <<>>, <<9>>>> [] k = 8 -> <<Rp(7, 16)>> [] OTHER -> <<Rp(7, 15), <<1, 2>>>>, m |-> 16])>>)
         \o Sum(For({0, 1, 2, 5, 8}, LAMBDA m : For(0..4, LAMBDA k : [op |-> "cst", fn |-> "build", parts |-> <<Rp(1, k), Rp(2, k)>>, m |-> m])))

(* ---- search on single values ---- *)
FindGroups == {G("bytes", b) : b \in Str({97, 98}, MaxLen)} \cup {G("text", b) : b \in Txt({LA, LE, LE2}, Min2(MaxLen, 3))}
         \cup {G("trim", b) : b \in Txt({<<32>>, LA, <<194, 160>>, <<227, 128, 128>>, <<10>>, LE}, Min2(MaxLen, 3))} \cup {G("iter", b) : b \in Txt({LA, LE}, 3)}
IterSteps == {Append(x, y) : x \in Str({<<"next", 0>>, <<"nth", 0>>, <<"nth", 1>>, <<"nth", 3>>, <<"len", 0>>}, 2), y \in {<<"rest", 0>>, <<"count", 0>>, <<"last", 0>>}}
BackSteps == {Append(x, y) : x \in Str({<<"next", 0>>, <<"nb", 0>>, <<"nth", 1>>, <<"len", 0>>}, 3), y \in {<<"rest", 0>>, <<"rev", 0>>}}
FindCalls(x) ==
  LET b == x.b IN
  CASE x.k = "bytes" -> LET nds == Str({97, 98}, 3) IN
         Sum(<<For({"starts", "ends"} \X {"bd", "sb"} \X nds, LAMBDA a : [op |-> a[1], t |-> a[2], b |-> b, nd |-> a[3], rep |-> 0]),
               For(nds, LAMBDA d : [op |-> "once", t |-> "bd", b |-> b, nd |-> d, rep |-> 0]), For(nds \ {<<>>}, LAMBDA d : [op |-> "split", t |-> "bd", b |-> b, nd |-> d, rep |-> 0])>>)
    [] x.k = "text" -> LET nds == Txt({LA, LE, LE2}, 2) IN
         Sum(<<For({"starts", "ends"} \X nds, LAMBDA a : [op |-> a[1], t |-> "sd", b |-> b, nd |-> a[2], rep |-> 0]),
               For(nds, LAMBDA d : [op |-> "once", t |-> "sd", b |-> b, nd |-> d, rep |-> 0]), For(nds \ {<<>>}, LAMBDA d : [op |-> "split", t |-> "sd", b |-> b, nd |-> d, rep |-> 0])>>)
    [] x.k = "trim" -> For(0..2, LAMBDA m : [op |-> "trim", t |-> "sd", b |-> b, rep |-> 0, m |-> m])
    [] OTHER -> For({"bd", "sd"} \X IterSteps, LAMBDA a : [op |-> "iter", t |-> a[1], b |-> b, rep |-> 0, steps |-> a[2]]) \o For({"sdi", "sdr"} \X BackSteps, LAMBDA a : [op |-> "iter", t |-> a[1], b |-> b, rep |-> 0, steps |-> a[2]])

(* ---- decoding ---- *)
Second == {65, 127, 128, 143, 144, 159, 160, 191, 192, 195, 240}
U8Groups == {G("first", <<x>>) : x \in 0..255}
U8Calls(x) ==
  LET a == x.b[1]
      bs == {<<a>>} \cup {<<a, y>> : y \in Second} \cup (IF a >= 224 THEN {<<a, y, z>> : y \in Second, z \in {65, 128, 191, 192}} ELSE {<<a, 128, 128>>})
            \cup (IF a >= 240 /\ a <= 245 THEN {<<a, y, z, w>> : y \in Second, z \in {65, 128, 191}, w \in {65, 128, 191, 192}} \cup {<<a, 144, 128, 128, 97>>} ELSE {})
            \cup (IF a < 128 THEN {<<195, a>>, <<226, 130, a>>, <<240, 159, 152, a>>, <<97, a, 195, 169>>} ELSE {<<97, a>>})
      ops == IF MaxLen > 1 THEN {"u8next", "u8iter", "u8const"} ELSE {"u8next", "u8iter"}
  IN IF a = 97 THEN For(ops \X {<<>>}, LAMBDA y : [op |-> y[1], b |-> y[2], tail |-> <<>>]) \o For(ops \X bs, LAMBDA y : [op |-> y[1], b |-> y[2], tail |-> <<>>])
     ELSE For(ops \X bs, LAMBDA y : [op |-> y[1], b |-> y[2], tail |-> <<>>])

(* ---- comparison ---- *)
CmpGroups == {G("bytes", b) : b \in Str({0, 127, 128, 255}, MaxLen)} \cup {G("text", b) : b \in Txt({LA, LE, LE2, SMI}, MaxLen)} \cup {G("long", Rp(97, l)) : l \in {13, 14, 15, 16, 17, 63, 64, 127, 128, 129, 255, 256, 257}}
CmpCalls(x) ==
  LET b == x.b n == Len(x.b)
      row(z) == [op |-> "cmp", b |-> b, b2 |-> z, rep |-> 0, rep2 |-> 1, cuts |-> <<>>, cuts2 |-> <<>>] IN
  CASE x.k = "bytes" -> For(Str({0, 127, 128, 255}, MaxLen), row)
    [] x.k = "text" -> For(Txt({LA, LE, LE2, SMI}, MaxLen), row)
    [] OTHER -> For({b, Append(b, 0), Append(b, 97), To(b, n - 1)} \cup {Set1(b, i, y) : i \in {1, 2, n \div 2, n - 1, n}, y \in {0, 96, 98, 225}}, row)

(* ---- parser-combinator input traits ---- *)
NomTypes == {"bd", "sd", "bq", "sq"}
NomAlpha(t) == IF t \in {"sd", "sq"} THEN {LA, <<65>>, LE} ELSE {LA, <<65>>, <<195>>}
NomGroups == UNION {{G(t, b) : b \in Txt(NomAlpha(t), MaxLen)} : t \in NomTypes}
NomCalls(x) ==
  LET t == x.k b == x.b n == Len(x.b) text == t \in {"sd", "sq"}
      base(f) == [op |-> "nom", fn |-> f, t |-> t, b |-> b, rep |-> 0, cuts |-> <<>>]
      tn == Txt({LA, <<65>>, LE, LEU}, 2)  bn == Txt({LA, <<65>>, <<195>>, LE}, 2)
      atc == IF t = "bd" THEN {"str"} ELSE {"str", "sd", "rsd"}
      atf == IF t \in {"bd", "bq", "sq"} THEN {"str"} ELSE {"str", "sd", "rsd"}
      sets == {<<>>, <<97>>, <<65, 97>>, <<98>>} \cup (IF text THEN {<<233>>, <<97, 233>>} ELSE {<<195>>})
      ms == 0..n + 2 \cup {Huge}
  IN Sum(<<For({"cmp", "cmpnc"} \X atc \X tn, LAMBDA a : base(a[1]) @@ [at |-> a[2], nd |-> a[3]]),
           For({"cmp", "cmpnc"} \X {"bd", "rbd", "u8s"} \X bn, LAMBDA a : base(a[1]) @@ [at |-> a[2], nd |-> a[3]]),
           For(atf \X tn, LAMBDA a : base("find") @@ [at |-> a[1], nd |-> a[2]]), For({"bd", "rbd", "u8s"} \X bn, LAMBDA a : base("find") @@ [at |-> a[1], nd |-> a[2]]),
           For({"u8", "ru8"} \X {97, 65, 98, 195}, LAMBDA a : base("token") @@ [at |-> a[1], m |-> a[2]]),
           For({"char", "rchar"} \X ({97, 65, 98} \cup (IF text THEN {233, 8364} ELSE {})), LAMBDA a : base("token") @@ [at |-> a[1], m |-> a[2]]),
           For({"len", "indices", "elements"} \cup (IF t \in {"bd", "sd"} THEN {"bytes"} ELSE {}), base),
           For({"take", "take_split", "slice_index"} \X ms, LAMBDA a : base(a[1]) @@ [m |-> a[2]]),
           For({"position", "split", "split1", "splitc", "split1c"} \X sets, LAMBDA a : base(a[1]) @@ [set |-> a[2]]),
           For((0..n + 1) \X (0..n + 1), LAMBDA a : base("slice") @@ [rg |-> RG("i", a[1], "x", a[2])]),
           For(0..n + 1, LAMBDA a : base("slice") @@ [rg |-> RG("i", a, "u", 0)]), For(0..n + 1, LAMBDA a : base("slice") @@ [rg |-> RG("u", 0, "x", a)]), <<base("slice") @@ [rg |-> RG("u", 0, "u", 0)]>>,
           IF t \in {"bd", "sd"} /\ \E k \in 1..n : b[k] > 127 THEN <<>> ELSE For(1..3, LAMBDA w : base("hex") @@ [w |-> w, m |-> 0])>>)      \* values delegate to nom, which shows such bytes its own way

(* ---- rendering ---- *)
Special == {0, 9, 10, 13, 31, 32, 34, 39, 92, 97, 126, 127, 128, 255}
RenderGroups == {G(t, <<x>>) : t \in {"bd", "sb", "bb", "bq", "ren", "multi", "chunk"}, x \in {0, 64, 128, 192}}
           \cup {G("pairs", <<x>>) : x \in Special} \cup {G("text", b) : b \in Txt({LA, LE, SMI, <<34>>, <<92>>, <<10>>, <<0>>}, 2)}
RenderCalls(x) ==
  LET t == x.k a == x.b[1]
      base(f, y, b) == [op |-> "render", fn |-> f, t |-> y, b |-> b, rep |-> 0, cuts |-> <<>>] IN
  CASE t = "pairs" -> For({"bd", "bq", "sb", "ren", "multi"} \X Special, LAMBDA y : base("dbg", y[1], <<a, y[2]>>)) \o For({"ren", "multi"} \X Special, LAMBDA y : base("esc", y[1], <<a, y[2]>>))
    [] t = "text" -> Sum(<<For({"", "<", ">", "^", "*<", "e>", "*^"} \X {0 - 1, 0, 1, 2, 3, 5} \X {0 - 1, 0, 1, 2}, LAMBDA y : base("disp", CASE (y[2] + y[3]) % 5 = 0 -> "sd" [] (y[2] + y[3]) % 5 = 1 -> "sq" [] (y[2] + y[3]) % 5 = 2 -> "tb" [] (y[2] + y[3]) % 5 = 3 -> "fsh" [] OTHER -> "fq", x.b) @@ [w |-> y[2], p |-> y[3], al |-> y[1]]),
                           For({"sd", "sq"} \X {0 - 1, 0, 1, 2, 4} \X {0 - 1, 1}, LAMBDA y : base("disp", y[1], x.b) @@ [w |-> y[2], p |-> y[3], al |-> "^"]),
                           For({"sd", "tb", "rens", "rensf", "rense"}, LAMBDA y : base("dbg", y, x.b)), For({"fsh", "fq"} \X {0, 7, 99, 1234}, LAMBDA y : [op |-> "render", fn |-> "fmt", t |-> y[1], b |-> x.b, m |-> y[2]]),
                           For({"fsh", "fq"}, LAMBDA y : [op |-> "render", fn |-> "lit", t |-> y])>>)
    [] OTHER -> LET bs == {<<y>> : y \in a..a + 63} \cup (IF a = 0 THEN {<<>>, Rp(1, 14)} ELSE {}) IN
         Sum(<<IF t = "bb" THEN <<>> ELSE For(bs, LAMBDA b : base("dbg", t, b)), IF t \in {"ren", "multi"} THEN For(bs, LAMBDA b : base("esc", t, b)) ELSE <<>>,
               IF t \in {"multi", "chunk"} THEN <<>> ELSE For({"lhex", "uhex"} \X bs, LAMBDA y : base(y[1], t, y[2]) @@ [w |-> 0 - 1]) \o For({"lhex", "uhex"} \X {0, 1, 2, 3, 9}, LAMBDA y : base(y[1], t, <<a>>) @@ [w |-> y[2]])>>)

(* ---- serialization ---- *)
Conts == <<<<>>, <<97>>, <<97, 98>>, LE, Rp(97, 14), Rp(97, 15), Rp(98, 40), <<97>> \o SMI \o LE, <<0>>, <<97, 0>>, Rp(97, 13) \o <<0>>, Rp(0, 14), Rp(98, 20) \o <<0>>, <<32, 10, 34, 92>>>>
Bads == <<<<195>>, <<237, 160, 128>>, <<97, 255>>, Rp(97, 20) \o <<128>>>>
Leaves == Sum(<<Sum([i \in DOMAIN Conts |-> <<<<"bbytes", Conts[i]>>, <<"bytes", Conts[i]>>, <<"bytebuf", Conts[i]>>, <<"bstr", Conts[i]>>, <<"str", Conts[i]>>, <<"string", Conts[i]>>>>]),
                Sum([i \in DOMAIN Bads |-> <<<<"bbytes", Bads[i]>>, <<"bytes", Bads[i]>>, <<"bytebuf", Bads[i]>>>>]),
                <<<<"char", LA>>, <<"char", SMI>>, <<"char", <<>>>>>>,
                [i \in 1..15 |-> <<(<<"bool", "i64", "u8", "f64", "map", "f32", "i8", "i16", "i32", "i128", "u16", "u32", "u128", "enum", "unit">>)[i], 0>>], <<<<"none", 0>>>>,
                <<<<"seq", <<>>>>, <<"seq", <<<<"num", 0>>>>>>, <<"seq", <<<<"num", 255>>, <<"num", 0>>>>>>, <<"seq", <<<<"num", 256>>>>>>, <<"seq", <<<<"num", 1>>, <<"num", 256>>>>>>, <<"seq", [i \in 1..15 |-> <<"num", i>>]>>, <<"seq", <<<<"num", 1>>, <<"str", LA>>>>>>, <<"seq", <<<<"u8", 0>>>>>>>>>>)
WrapF(n, fs) == [i \in DOMAIN fs |-> <<n, fs[i]>>]
SerdeGroups == {G(t, <<>>) : t \in {"bd", "bds", "sb", "sd", "sds", "bdo", "sdo", "bdn", "sdn", "bdv", "sdv"}}
SerdeCalls(x) ==
  LET t == x.k text == TextT(t)
      fs == CASE t \in {"bdv", "sdv"} -> Sum(<<Leaves, [i \in DOMAIN Leaves |-> <<"seq", <<Leaves[i]>>>>], [i \in DOMAIN Leaves |-> <<"seq", <<IF text THEN <<"str", LE>> ELSE <<"bytes", <<255>>>>, Leaves[i], IF text THEN <<"bstr", Rp(97, 20)>> ELSE <<"bbytes", Rp(200, 20)>>>>>>]>>)
              [] t \in {"bdo", "sdo", "bdn", "sdn"} -> Sum(<<Leaves, WrapF("some", Leaves), WrapF("newtype", Leaves)>>)
              [] OTHER -> Sum(<<Leaves, WrapF("newtype", Leaves), WrapF("some", Leaves)>>)
      de == [i \in DOMAIN fs |-> [op |-> "de", t |-> t, form |-> fs[i]]]
      sr == IF t \in {"bd", "sb"} THEN For(Str({0, 34, 92, 200}, MaxLen) \cup {Rp(65, l) : l \in {14, 15, 40}} \cup {Rp(0, l) : l \in {14, 15, 40}}, LAMBDA b : [op |-> "ser", t |-> t, b |-> b, rep |-> 0])
            ELSE IF t = "sd" THEN For(Txt({LA, <<34>>, <<92>>, <<0>>, <<1>>, SMI}, MaxLen) \cup {Rp(65, l) : l \in {14, 15, 40}} \cup {Rp(y, 13) \o Rp(0, l) : y \in {0, 97}, l \in {1, 2, 30}}, LAMBDA b : [op |-> "ser", t |-> t, b |-> b, rep |-> 0]) ELSE <<>>
  IN sr \o de

(* ---- bodies ---- *)
Sizes == {1, 2, 65534, 65535, 65536, 131070, 131071, 200000}
RECURSIVE RunsOf(_, _)
RunsOf(ss, k) == IF ss = <<>> THEN <<>> ELSE <<<<<<k, ss[1] - ss[1] \div 2>>>> \o (IF ss[1] > 1 THEN <<<<k + 1, ss[1] \div 2>>>> ELSE <<>>)>> \o RunsOf(Tail(ss), k + 2)
HttpGroups == {G(t, s) : t \in {"bq"}, s \in Str(Sizes, MaxLen)} \cup {G(t, s) : t \in {"bd", "sb"}, s \in Str(Sizes, 1)}
HttpCalls(x) == For(IF x.k = "bq" THEN {1} ELSE {1, 4}, LAMBDA v : [op |-> "http", t |-> x.k, ver |-> v, chunks |-> RunsOf(x.b, 10), rep |-> 0])

(* ---- arbitrary generation ---- *)
ArbGroups == {G(t, <<>>) : t \in {"bd", "sb", "bb", "sd", "bq", "sq"}}
ArbCalls(x) == For({"arb", "rest"} \X (Str({0, 1, 97, 255}, MaxLen) \cup {Rp(y, l) : y \in {0, 1, 2, 97, 200, 255}, l \in {4, 8, 16, 17, 33, 64}}
                       \cup {Rp(97, k) \o Rp(y, 1) : y \in {1, 2, 3, 200}, k \in {5, 20, 40}} \cup {LE \o Rp(97, k) \o <<y, 0>> : y \in {1, 2, 3, 255}, k \in {0, 3, 16}}),
                   LAMBDA a : [op |-> "arb", how |-> a[1], t |-> x.k, b |-> a[2]])

Groups == CASE Mode = "const" -> ConstGroups [] Mode = "find" -> FindGroups [] Mode = "u8" -> U8Groups [] Mode = "cmp" -> CmpGroups [] Mode = "nom" -> NomGroups
            [] Mode = "render" -> RenderGroups [] Mode = "serde" -> SerdeGroups [] Mode = "http" -> HttpGroups [] OTHER -> ArbGroups
Calls(x) == CASE Mode = "const" -> ConstCalls(x) [] Mode = "find" -> FindCalls(x) [] Mode = "u8" -> U8Calls(x) [] Mode = "cmp" -> CmpCalls(x) [] Mode = "nom" -> NomCalls(x)
              [] Mode = "render" -> RenderCalls(x) [] Mode = "serde" -> SerdeCalls(x) [] Mode = "http" -> HttpCalls(x) [] OTHER -> ArbCalls(x)
None1 == [op |-> "none"]
Init == g \in Groups /\ c = None1
Next == c = None1 /\ LET cs == Calls(g) IN \E k \in DOMAIN cs : c' = cs[k] /\ UNCHANGED g
Spec == Init /\ [][Next]_vars

(* ---- laws ---- *)
FindLaw(b, nd) ==    \* the first place where the needle stands, if any
  LET p == Find(b, nd) at(i) == i + Len(nd) <= Len(b) /\ \A k \in 1..Len(nd) : b[i + k] = nd[k] IN
  IF p < 0 THEN \A i \in 0..Len(b) : ~ at(i) ELSE at(p) /\ \A i \in 0..p - 1 : ~ at(i)
RECURSIVE Join(_, _)
Join(ps, nd) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o nd \o Join(Tail(ps), nd)
PiecesLaw(b, nd) ==  \* the pieces, joined with the separator, are the content; a trailing separator ends the last piece
  LET ps == Pieces(b, nd, 0) j == Join(ps, nd) IN
  /\ j = b \/ j \o nd = b
  /\ \A k \in DOMAIN ps : Find(ps[k], nd) < 0
White(b) == \A k \in DOMAIN CharVals(b) : WhiteC(CharVals(b)[k])
Edge(s, atEnd) == s = <<>> \/ LET cs == CharVals(s) IN ~ WhiteC(cs[IF atEnd THEN Len(cs) ELSE 1])
TrimLaw(b) == LET l == TrimL(b) r == TrimR(b) m == TrimL(TrimR(b)) IN
  /\ l = From(b, Len(b) - Len(l)) /\ White(To(b, Len(b) - Len(l))) /\ Edge(l, FALSE)
  /\ r = To(b, Len(r)) /\ White(From(b, Len(r))) /\ Edge(r, TRUE)
  /\ m = TrimR(TrimL(b))
U8Law(b) ==  \* a decoded character encodes to exactly the bytes it was decoded from, shortest and no surrogate
  LET it == Items(b, 0) IN
  /\ Cat([k \in DOMAIN it |-> Sub(b, it[k].p, it[k].p + it[k].l)]) = b
  /\ \A k \in DOMAIN it : it[k].k = 1 => EncC(it[k].c) = Sub(b, it[k].p, it[k].p + it[k].l) /\ it[k].c <= 1114111 /\ ~ InR(it[k].c, 55296, 57343)
  \* a byte rejected as a start is no start of any encoding that stands there: all one to four byte encodings
  /\ \A k \in DOMAIN it : it[k].k = 0 => \A l \in 1..Min2(4, Len(b) - it[k].p) : LET s == Sub(b, it[k].p, it[k].p + l)
        v == CASE l = 1 -> s[1] [] l = 2 -> (s[1] % 32) * 64 + (s[2] % 64) [] l = 3 -> (s[1] % 16) * 4096 + (s[2] % 64) * 64 + (s[3] % 64) [] OTHER -> (s[1] % 8) * 262144 + (s[2] % 64) * 4096 + (s[3] % 64) * 64 + (s[4] % 64)
        IN v > 1114111 \/ InR(v, 55296, 57343) \/ EncC(v) # s
  /\ Valid8(b) <=> \A k \in DOMAIN it : it[k].k = 1
CmpLaw(a, b) ==
  /\ Cmp(a, b) = 0 - Cmp(b, a) /\ (Cmp(a, b) = 0 <=> a = b)
  /\ (IsPrefix(a, b) /\ a # b) => Cmp(a, b) = 0 - 1
  /\ (Len(a) < 20 /\ Valid8(a) /\ Valid8(b)) => Cmp(a, b) = Cmp(CharVals(a), CharVals(b))       \* the order of the bytes is the order of the characters
RenderLaw(b) ==
  /\ UnEsc(Esc(b)) = b /\ \A k \in DOMAIN Esc(b) : InR(Esc(b)[k], 32, 126)
  /\ LET h == Hex(b, FALSE) u == Hex(b, TRUE) IN Len(h) = 2 * Len(b) /\ \A k \in DOMAIN b : b[k] = 16 * UnHexD(h[2 * k - 1]) + UnHexD(h[2 * k]) /\ b[k] = 16 * UnHexD(u[2 * k - 1]) + UnHexD(u[2 * k])
DispLaw(e) == LET s == PadTo(e.b, e.al, e.w, e.p) n == Len(CharVals(e.b)) m == IF e.p >= 0 THEN Min2(e.p, n) ELSE n IN
  Valid8(s) /\ Len(CharVals(s)) = Max2(m, e.w)
NomLaw(e) ==
  CASE e.fn \in {"cmp", "cmpnc"} -> \* a fitting prefix; without regard to case at least whatever fits exactly
         LET x(f) == CmpRes(e.b, e.nd, f, e.t \in {"sd", "sq"} /\ e.at \in {"str", "sd", "rsd"}) IN
         /\ x(FALSE) = "ok" <=> Starts(e.b, e.nd)
         /\ x(FALSE) = "inc" <=> (Len(e.b) < Len(e.nd) /\ Starts(e.nd, e.b))
         /\ x(FALSE) # "err" => x(TRUE) = x(FALSE)
    [] e.fn = "find" -> FindLaw(e.b, e.nd)
    [] OTHER -> TRUE
(* The body machine: one frame is the front chunk, at most FrameMax of it. *)
RECURSIVE FirstRuns(_, _)
FirstRuns(rs, m) == IF rs = <<>> \/ m = 0 THEN <<>> ELSE IF rs[1][2] <= m THEN <<rs[1]>> \o FirstRuns(Tail(rs), m - rs[1][2]) ELSE <<<<rs[1][1], m>>>>
RECURSIVE SkipRuns(_, _)
SkipRuns(rs, m) == IF rs = <<>> \/ m = 0 THEN rs ELSE IF rs[1][2] <= m THEN SkipRuns(Tail(rs), m - rs[1][2]) ELSE <<<<rs[1][1], rs[1][2] - m>>>> \o Tail(rs)
RECURSIVE Polls(_, _)
Polls(q, after) ==
  LET left == RLen(FlattenSeq(q)) row(f) == <<<<left, left, left, left = 0, f>>>> IN
  IF q = <<>> THEN (IF after = 0 THEN <<>> ELSE row(<<"n", <<>>>>) \o Polls(q, after - 1))
  ELSE IF RLen(q[1]) <= FrameMax THEN row(<<"d", q[1]>>) \o Polls(Tail(q), after)
  ELSE row(<<"d", FirstRuns(q[1], FrameMax)>>) \o Polls(<<SkipRuns(q[1], FrameMax)>> \o Tail(q), after)
HttpLaw(e) == HttpGood([r |-> [k |-> "ok", v |-> [t |-> 0, p |-> Polls(e.chunks, 2)]]] @@ e)
Laws == c = None1 \/
  CASE c.op \in {"starts", "ends"} -> (Starts(c.b, c.nd) => Find(c.b, c.nd) = 0) /\ (Ends(c.b, c.nd) <=> Starts(Rev(c.b), Rev(c.nd)))
    [] c.op = "once" -> FindLaw(c.b, c.nd)
    [] c.op = "split" -> PiecesLaw(c.b, c.nd)
    [] c.op = "trim" -> TrimLaw(c.b)
    [] c.op = "cst" /\ c.fn \in {"find", "once", "once_str"} -> FindLaw(c.b, c.nd)
    [] c.op \in {"u8next", "u8iter", "u8const"} -> U8Law(c.b)
    [] c.op = "cmp" -> CmpLaw(c.b, c.b2)
    [] c.op = "render" /\ c.fn \in {"dbg", "esc", "lhex", "uhex"} -> RenderLaw(c.b)
    [] c.op = "render" /\ c.fn = "disp" -> DispLaw(c)
    [] c.op = "nom" -> NomLaw(c)
    [] c.op = "http" -> HttpLaw(c)
    [] OTHER -> TRUE

(* ---- scripts ---- *)
Batch == 40
CutAt(b, j) == LET n == Len(b) IN CASE n < 2 \/ j % 5 = 0 -> <<>> [] j % 5 \in {1, 2} -> [i \in 1..n - 1 |-> i] [] j % 5 = 3 -> <<1>> [] OTHER -> <<n - 1>>
Turn(e, j) == [f \in DOMAIN e |-> CASE f = "rep" -> (7 * j) % 23 [] f = "rep2" -> (5 * j + 1) % 23 [] f = "cuts" -> CutAt(e.b, j) [] f = "cuts2" -> CutAt(e.b2, j \div 2)
                                    [] f = "tail" -> (IF j % 3 = 0 THEN <<>> ELSE IF j % 3 = 1 THEN <<128, 191, 128, 128>> ELSE LE) [] OTHER -> e[f]]
Emit == (Gen /\ c = None1) => LET cs == Calls(g) off == FoldLeft(LAMBDA x, y : (3 * x + y) % 1000, 1, g.b) IN \A k \in 0..((Len(cs) - 1) \div Batch) :
   PrintT(<<"S", ToJsonObject([ops |-> [i \in 1..Min2(Batch, Len(cs) - k * Batch) |-> Turn(cs[k * Batch + i], k * Batch + i + off)]])>>)
=============================================================================
