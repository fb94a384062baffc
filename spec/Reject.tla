------------------------------- MODULE Reject -------------------------------
(***************************************************************************)
(* Values that an operation cannot take (C26): the operations of Api with   *)
(* random arguments, where an argument may be one the engine's types cannot *)
(* hold (numbers beyond 32 bits, negative atoms, fractions), something of   *)
(* another type, or a sequence or pair with such a part.  The operation     *)
(* has to fail with an error in the calling language, the engine must not   *)
(* be called, and everything after that works as before.  Everything else,  *)
(* in particular the largest and smallest values, arrives as it is (Api).   *)
(***************************************************************************)
EXTENDS Api
Raw(t, v) == [raw |-> t, v |-> v]
Ints32 == {Raw("num", v) : v \in {"2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "1099511627776", "-1099511627777", "9223372036854775807", "1.5", "0.25", "-3.75", "1e10"}}
UInts32 == {Raw("num", v) : v \in {"4294967296", "4294967297", "-1", "-2", "-2147483648", "1099511627776", "1099511627777", "9223372036854775807", "1.5", "0.25", "1e10"}}
Objs == {Raw("obj", ""), Raw("str", "x")}
Obj == {Raw("obj", "")}
\* numbers are symbols in Lua, as far as they can be
BadSym == Obj \cup (IF Lua THEN Ints32 ELSE {Raw("num", "1"), Raw("str", "a")})
BadInt == Ints32 \cup Objs
BadUInt == UInts32 \cup Objs
\* (Lua takes numbers for strings)
BadStr == Obj \cup (IF Lua THEN {} ELSE {Raw("num", "1")})
NotList == {Raw("num", "3"), Raw("str", "x")}
Insert(s, x) == LET p == RandomElement(1..Len(s) + 1) IN SubSeq(s, 1, p - 1) \o <<x>> \o SubSeq(s, p, Len(s))
InList(s, B) == IF RandomElement(1..8) = 1 THEN RandomElement(NotList) ELSE Insert(s, RandomElement(B))
BadPair(r) == LET k == RandomElement(1..5) IN
    CASE k = 1 -> <<RandomElement(BadInt), r.i1>> [] k = 2 -> <<r.l1, RandomElement(BadInt)>> [] k = 3 -> <<r.l1, r.i1, r.i2>>
      [] k = 4 -> RandomElement(Ints32) [] OTHER -> <<r.l2, RandomElement(Ints32)>>
BadPart(r) == LET k == RandomElement(1..3) IN
    CASE k = 1 -> <<RandomElement(BadStr), r.ys>> [] OTHER -> <<r.s, Insert(r.ys, RandomElement(BadSym))>>
Wrong(k, r) ==
    CASE k = "int" -> RandomElement(BadInt)
      [] k = "uint" -> RandomElement(BadUInt)
      [] k = "big" -> RandomElement({Raw("num", v) : v \in {"4294967296", "4294967297", "1099511627776", "1.5"}} \cup Obj)
      [] k = "thread" -> RandomElement(BadUInt \cup (IF Lua THEN {Raw("num", "0")} ELSE {}))
      \* a literal or a symbol
      [] k = "litsym" -> RandomElement(Ints32 \cup Obj)
      \* (Lua takes negative limits for large ones and a table for a sequence of symbols)
      [] k = "limit" -> RandomElement(IF Lua THEN BadInt ELSE BadUInt)
      [] k = "ret" -> RandomElement(IF Lua THEN Ints32 ELSE BadSym)
      [] k = "str" -> RandomElement(BadStr)
      [] k = "sym" -> RandomElement(BadSym)
      [] k = "syms" -> InList(r.ys, BadSym)
      [] k = "atsyms" -> Insert(r.atns, RandomElement(UInts32 \cup Obj))
      [] k = "strs" -> Insert(r.ss, RandomElement(BadStr))
      \* (only the complements need to be literals)
      [] k = "nogood" -> InList(r.ls, BadInt \ {Raw("num", "2147483648")})
      [] k = "ints" -> InList(r.ls, BadInt)
      [] k = "uints" -> InList(r.as, BadUInt)
      [] k = "pairs" -> Insert(r.ws, BadPair(r))
      [] OTHER -> Insert(SubSeq(<<<<r.s, r.ys>>, <<"base", <<>>>>>>, 1, r.k % 3), BadPart(r))
K == [backend |-> [add_rule |-> <<"", "uints", "ints">>, add_weight_rule |-> <<"", "uints", "int", "pairs">>, add_minimize |-> <<"int", "pairs">>,
                   add_external |-> <<"uint", "">>, add_atom |-> <<"sym">>, add_project |-> <<"uints">>, add_assume |-> <<"ints">>,
                   add_heuristic |-> <<"uint", "", "int", "uint", "ints">>, add_acyc_edge |-> <<"int", "int", "ints">>, add_theory_term_number |-> <<"int">>,
                   add_theory_term_string |-> <<"str">>, add_theory_term_sequence |-> <<"", "uints">>, add_theory_term_function |-> <<"str", "uints">>,
                   add_theory_term_symbol |-> <<"sym">>, add_theory_element |-> <<"uints", "ints">>, add_theory_atom |-> <<"uint", "uints", "uint">>,
                   add_theory_atom_with_guard |-> <<"uint", "uints", "str", "uint", "uint">>],
      control |-> [add |-> <<"str", "strs", "str">>, add1 |-> <<"str">>, load |-> <<"str">>, load_aspif |-> <<"strs">>, ground |-> <<"parts", "">>,
                   assign_external |-> <<"litsym", "">>, release_external |-> <<"litsym">>, add_project |-> <<"atsyms">>, replace_project |-> <<"atsyms">>,
                   get_const |-> <<"str">>, register_backend |-> <<"", "str", "", "", "">>, solve |-> <<"ints">>, solve_cb |-> <<"ints">>,
                   solve_yield |-> <<"ints">>, solve_async |-> <<"ints">>, solve_async_yield |-> <<"ints">>],
      model |-> [contains |-> <<"sym">>, is_true |-> <<"int">>, is_consequence |-> <<"int">>, extend |-> <<"syms">>],
      mctl |-> [add_clause |-> <<"ints">>, add_nogood |-> <<"nogood">>],
      init |-> [solver_literal |-> <<"int">>, add_watch |-> <<"int", "thread">>, remove_watch |-> <<"int", "uint">>, freeze_literal |-> <<"int">>,
                add_clause |-> <<"ints">>, add_weight_constraint |-> <<"int", "pairs", "int", "", "">>, add_minimize |-> <<"int", "int", "int">>],
      pctl |-> [add_watch |-> <<"int">>, has_watch |-> <<"int">>, remove_watch |-> <<"int">>, add_clause |-> <<"ints", "", "">>, add_nogood |-> <<"nogood", "", "">>],
      ass |-> [level |-> <<"int">>, decision |-> <<"uint">>, is_fixed |-> <<"int">>, is_true |-> <<"int">>, is_false |-> <<"int">>, is_free |-> <<"int">>,
               value |-> <<"int">>, has_literal |-> <<"int">>, trail_begin |-> <<"uint">>, trail_end |-> <<"uint">>],
      make |-> [number |-> <<"int">>, string |-> <<"str">>, function |-> <<"str", "syms", "">>, tuple |-> <<"syms">>, control |-> <<"strs">>, limit |-> <<"limit">>,
                parse_term |-> <<"str">>, returned |-> <<"ret">>, returned_list |-> <<"symlist">>, decided |-> <<"int">>, signature |-> <<"str", "big">>]]
Broken == [exc |-> [any |-> 1], msg |-> [any |-> 1]]
Spoil(s, o, r) ==
    LET ks == K[s][o.m] ps == {p \in DOMAIN ks : ks[p] # ""} IN
    IF ps = {} THEN o ELSE LET p == RandomElement(ps) IN
    [o EXCEPT !.a = [@ EXCEPT ![p] = IF ks[p] = "symlist" THEN Insert(r.ys, RandomElement(BadSym)) ELSE Wrong(ks[p], r)], !.res = Broken, !.calls = <<>>]
Spoils(s) == IF s \in DOMAIN K THEN DOMAIN K[s] ELSE {}

\* operations without an engine call to watch: the text of what was made
Txt(m, a, res) == [m |-> m, a |-> a, calls |-> <<>>, script |-> <<>>, res |-> res, fail |-> FALSE]
Extremes == {0, 1, 0 - 1, 2147483647, 0 - 2147483647 - 1}
Make(r) == LET i == RandomElement(Extremes) IN
    [number |-> Txt("number", <<i>>, ToString(i)), string |-> Txt("string", <<"abc">>, "\"abc\""), function |-> Txt("function", <<"f", <<"1">>, TRUE>>, "f(1)"),
     tuple |-> Txt("tuple", <<<<"1", "a">>>>, "(1,a)"), control |-> Txt("control", <<<<"0">>>>, None), limit |-> Txt("limit", <<r.n1>>, None),
     parse_term |-> Txt("parse_term", <<"p(1)">>, "p(1)"), returned |-> Txt("returned", <<"7">>, "p(7)"), returned_list |-> Txt("returned_list", <<<<"8">>>>, "p(8)"),
     decided |-> Txt("decided", <<0>>, None), signature |-> Txt("signature", <<"a", 1>>, 3)]
Places == DOMAIN K
TableR(s, r) == IF s = "make" THEN Make(r) ELSE Table(s, r)
EnterR == sc = "" /\ n < Depth /\ sc' \in One(Places) /\ n' = n + 1 /\ UNCHANGED <<h, os>>
DoR == /\ sc # "" /\ Len(os) < 8
       /\ \E r \in {Draw(n)} : \E t \in {TableR(sc, r)} :
          \E w \in One(1..4) : \E nm \in One({x \in DOMAIN t \ Lacks : w = 1 \/ t[x].m \in Spoils(sc)}) : \E o \in {t[nm]} :
          \E x \in {IF w = 1 \/ o.m \notin Spoils(sc) THEN o ELSE Spoil(sc, o, r)} : os' = Append(os, x)
       /\ UNCHANGED <<h, n, sc>>
NextR == \/ \E k \in One(1..6) : IF sc = "" THEN EnterR ELSE IF (k = 1 /\ Len(os) > 0) \/ Len(os) = 8 THEN Leave ELSE DoR
         \/ sc = "" /\ n = Depth /\ n' = Depth + 1 /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<sc, os>>
         \/ n > Depth /\ UNCHANGED vars
=============================================================================
