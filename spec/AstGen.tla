------------------------------ MODULE AstGen -------------------------------
(* Random trees of every statement type, restricted to those the parser     *)
(* yields.  x only keeps TLC from treating the choices as constants.        *)
EXTENDS AstTree
R(S) == RandomElement(S)
Vars == {"X", "Y", "Z", "_", "X'", "Long_Name"}
Ids == {"a", "b", "c", "f", "p", "a'", "_q", "camelCase"}
Consts == {"a", "b", "0", "1", "42", "2147483647", "\"s\"", "\"\"", "\"a b\"", "#inf", "#sup"}

\* n trees of a class
RECURSIVE Gen(_, _, _), Many(_, _, _, _)
Many(c, n, d, x) == IF n = 0 THEN <<>> ELSE \* force the values now
    Append(Many(c, n - 1, d, x), Gen(c, d, <<x, n>>))
Upto(c, lo, hi, d, x) == LET n == R(lo..hi) IN Many(c, n, d, x)
Maybe(c, d, x) == IF R(1..2) = 1 THEN <<>> ELSE <<Gen(c, d, x)>>
Fun0(n) == <<"Function", n, <<>>, 0>>
NoGuard == <<>>
LitOf(s, a) == <<"Literal", s, a>>
Guards(d, x) == LET k == R(1..4) IN
    CASE k = 1 -> <<NoGuard, NoGuard>> [] k = 2 -> <<<<Gen("guard", d, x)>>, <<Gen("guard", d, x)>>>> [] OTHER -> <<<<Gen("guard", d, x)>>, NoGuard>>
D(d) == IF d = 0 THEN 0 ELSE d - 1
Gen(c, d, x) ==
  CASE c = "term" ->
        (LET k == R(1..(IF d = 0 THEN 4 ELSE 12)) IN
         CASE k \in 1..2 -> <<"Variable", R(Vars)>>
           [] k \in 3..4 -> <<"SymbolicTerm", R(Consts)>>
           [] k = 5 -> <<"UnaryOperation", R({"Minus", "Negation", "Absolute"}), Gen("term", D(d), x)>>
           [] k = 6 -> <<"BinaryOperation", R(DOMAIN OpStr), Gen("term", D(d), x), Gen("term", D(d), x)>>
           [] k = 7 -> <<"Interval", Gen("term", D(d), x), Gen("term", D(d), x)>>
           [] k = 8 -> <<"Function", R(Ids), Upto("term", 1, 3, D(d), x), 0>>
           [] k = 9 -> <<"Function", R(Ids), Upto("term", 0, 2, D(d), x), 1>>
           [] k = 10 -> <<"Function", "", Upto("term", 0, 3, D(d), x), 0>>
           [] k = 11 -> (LET n == R(Ids \cup {""}) IN
                         <<"Pool", <<<<"Function", n, Upto("term", 0, 2, D(d), x), 0>>, <<"Function", n, Upto("term", 0, 2, D(d), <<x>>), 0>>>>>>)
           [] OTHER -> <<"Pool", <<<<"SymbolicTerm", R(Consts)>>>> \o Upto("term", 1, 2, D(d), x)>>)
    [] c = "atomterm" ->
        (LET n == R({"p", "q", "r", "r'"}) k == R(1..8) IN
         CASE k \in 1..3 -> <<"Function", n, Upto("term", 0, 2, d, x), 0>>
           [] k = 4 -> <<"UnaryOperation", "Minus", <<"Function", n, Upto("term", 0, 2, D(d), x), 0>>>>
           [] k = 5 -> <<"Pool", <<<<"Function", n, Upto("term", 0, 2, D(d), x), 0>>, <<"Function", n, Upto("term", 1, 2, D(d), <<x>>), 0>>>>>>
           [] OTHER -> Fun0(n))
    [] c = "atom" -> <<"SymbolicAtom", Gen("atomterm", d, x)>>
    [] c = "guard" -> <<"Guard", R(DOMAIN CmpStr), Gen("term", D(d), x)>>
    \* the installed engine reduces signs of comparisons and constants while parsing
    [] c = "lit" ->
        (LET k == R(1..8) IN
         CASE k = 1 -> LitOf("NoSign", <<"BooleanConstant", R({0, 1})>>)
           [] k \in 2..3 -> LitOf("NoSign", <<"Comparison", Gen("term", d, x), Upto("guard", 1, 2, d, x)>>)
           [] OTHER -> LitOf(R(DOMAIN SignStr), Gen("atom", d, x)))
    [] c = "cond" -> <<"ConditionalLiteral", Gen("lit", d, x), Upto("lit", 0, 2, d, x)>>
    [] c = "cond1" -> <<"ConditionalLiteral", Gen("lit", d, x), Upto("lit", 1, 2, d, x)>>
    [] c = "agg" -> (LET g == Guards(d, x) IN <<"Aggregate", g[1], Upto("cond", 0, 3, D(d), x), g[2]>>)
    [] c = "baelem" -> (LET t == Upto("term", 0, 2, D(d), x) IN <<"BodyAggregateElement", t, Upto("lit", IF t = <<>> THEN 1 ELSE 0, 2, D(d), x)>>)
    [] c = "bagg" -> (LET g == Guards(d, x) IN <<"BodyAggregate", g[1], R(DOMAIN AggStr), Upto("baelem", 0, 3, d, x), g[2]>>)
    [] c = "haelem" -> <<"HeadAggregateElement", Upto("term", 0, 2, D(d), x), Gen("cond", D(d), x)>>
    [] c = "hagg" -> (LET g == Guards(d, x) IN <<"HeadAggregate", g[1], R(DOMAIN AggStr), Upto("haelem", 0, 3, d, x), g[2]>>)
    [] c = "thop" -> R({"+", "-", "*", "<<", "&", "<?>", "!", "**"})
    [] c = "thelem1" -> <<"TheoryUnparsedTermElement", Upto("thop", 1, 2, d, x), Gen("thbase", D(d), x)>>
    [] c = "thbase" ->
        (LET k == R(1..(IF d = 0 THEN 3 ELSE 7)) IN
         CASE k = 1 -> <<"Variable", R(Vars \ {"_"})>> \* no anonymous variables in theory terms
           [] k \in 2..3 -> <<"SymbolicTerm", R(Consts)>>
           [] k = 4 -> <<"TheoryFunction", R(Ids), Upto("thterm", 1, 2, D(d), x)>>
           [] k = 5 -> <<"TheorySequence", R({"Tuple", "List", "Set"}), Upto("thterm", 0, 3, D(d), x)>>
           [] OTHER -> Gen("thun", D(d), x))
    [] c = "thun" -> \* needs an operator somewhere
        (IF R(1..3) = 1 THEN <<"TheoryUnparsedTerm", <<Gen("thelem1", d, x)>> \o Upto("thelem1", 0, 1, d, x)>>
         ELSE <<"TheoryUnparsedTerm", <<<<"TheoryUnparsedTermElement", <<>>, Gen("thbase", D(d), x)>>>> \o Upto("thelem1", 1, 2, d, x)>>)
    [] c = "thterm" -> (IF R(1..3) = 1 THEN Gen("thun", d, x) ELSE Gen("thbase", d, x))
    [] c = "thaelem" -> (LET t == Upto("thterm", 0, 2, d, x) IN <<"TheoryAtomElement", t, Upto("lit", IF t = <<>> THEN 1 ELSE 0, 2, D(d), x)>>)
    [] c = "thguard" -> <<"TheoryGuard", R({"<=", "=", "!=", "+"}), Gen("thterm", d, x)>>
    [] c = "thatom" -> <<"TheoryAtom", <<"Function", R({"p", "sum", "diff'"}), Upto("term", 0, 2, D(d), x), 0>>, Upto("thaelem", 0, 2, d, x), Maybe("thguard", d, x)>>
    [] c = "body" ->
        (LET k == R(1..12) IN
         CASE k = 1 -> Gen("cond1", d, x)
           [] k \in 2..3 -> LitOf(R(DOMAIN SignStr), Gen("agg", d, x))
           [] k \in 4..5 -> LitOf(R(DOMAIN SignStr), Gen("bagg", d, x))
           [] k = 6 -> LitOf(R(DOMAIN SignStr), Gen("thatom", d, x))
           [] OTHER -> Gen("lit", d, x))
    [] c = "head" ->
        (LET k == R(1..9) IN
         CASE k = 1 -> Gen("agg", d, x)
           [] k = 2 -> Gen("hagg", d, x)
           [] k = 3 -> Gen("thatom", d, x)
           [] k = 4 -> <<"Disjunction", Upto("cond", 2, 3, d, x)>>
           [] k = 5 -> <<"Disjunction", <<Gen("cond1", d, x)>>>>
           [] OTHER -> Gen("lit", d, x))
    [] c = "id" -> <<"Id", R(Ids)>>
    [] c = "topdef" -> <<"TheoryOperatorDefinition", R({"+", "-", "*", "<<", "&"}), R({0, 1, 3, 100}), R(DOMAIN TOpStr)>>
    [] c = "ttermdef" -> <<"TheoryTermDefinition", R(Ids), Upto("topdef", 1, 3, d, x)>>
    [] c = "tguarddef" -> <<"TheoryGuardDefinition", (LET n == R(0..2) IN [i \in 1..n |-> R({"<=", "=", ">", "+"})]), R(Ids)>>
    [] c = "tatomdef" -> <<"TheoryAtomDefinition", R(DOMAIN TAtStr), R(Ids), R(0..3), R(Ids), Maybe("tguarddef", d, x)>>
    [] c = "gterm" -> \* terms of constants
        (LET k == R(1..(IF d = 0 THEN 1 ELSE 4)) IN
         CASE k = 1 -> <<"SymbolicTerm", R(Consts)>>
           [] k = 2 -> <<"UnaryOperation", R({"Minus", "Negation", "Absolute"}), Gen("gterm", D(d), x)>>
           [] k = 3 -> <<"BinaryOperation", R(DOMAIN OpStr), Gen("gterm", D(d), x), Gen("gterm", D(d), x)>>
           [] OTHER -> <<"Function", R(Ids), Upto("gterm", 1, 2, D(d), x), 0>>)
    [] OTHER -> \* statements
        (CASE c = "Rule" -> <<"Rule", Gen("head", d, x), Upto("body", 0, 3, d, x)>>
           [] c = "Definition" -> <<"Definition", R(Ids), Gen("gterm", d, x), R({0, 1})>>
           [] c \in {"ShowSignature", "ProjectSignature", "Defined"} -> <<c, R(Ids), R(0..3), R({0, 1})>>
           [] c = "ShowTerm" -> <<"ShowTerm", Gen("term", d, x), Upto("body", 0, 2, d, x)>>
           [] c = "Minimize" -> <<"Minimize", Gen("term", d, x), Gen("term", d, x), Upto("term", 0, 2, d, x), Upto("body", 0, 2, d, x)>>
           [] c = "Program" -> <<"Program", R(Ids), Upto("id", 0, 2, d, x)>>
           [] c = "External" -> <<"External", Gen("atom", d, x), Upto("body", 0, 2, d, x), Gen("term", d, x)>>
           [] c = "Edge" -> <<"Edge", Gen("term", d, x), Gen("term", d, x), Upto("body", 0, 2, d, x)>>
           [] c = "Heuristic" -> <<"Heuristic", Gen("atom", d, x), Upto("body", 0, 2, d, x), Gen("term", d, x), Gen("term", d, x), Gen("term", d, x)>>
           [] c = "ProjectAtom" -> <<"ProjectAtom", Gen("atom", d, x), Upto("body", 0, 2, d, x)>>
           [] c = "TheoryDefinition" -> <<"TheoryDefinition", R(Ids), Upto("ttermdef", 0, 2, d, x), Upto("tatomdef", 0, 2, d, x)>>
           [] c = "Script" -> <<"Script", R({"lua", "python"}), R({" x = 1\n", " \n", " f()\n g()\n"})>>)
Statements == {"Rule", "Definition", "ShowSignature", "ProjectSignature", "Defined", "ShowTerm", "Minimize", "Program", "External", "Edge",
               "Heuristic", "ProjectAtom", "TheoryDefinition"}
Classes == {"term", "atom", "lit", "cond", "agg", "baelem", "bagg", "haelem", "hagg", "thelem1", "thun", "thterm", "thaelem", "thguard", "thatom", "head", "body",
            "id", "topdef", "ttermdef", "tguarddef", "tatomdef", "guard"}
=============================================================================
