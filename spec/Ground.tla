------------------------------- MODULE Ground -------------------------------
(***************************************************************************)
(* Random non-ground programs and what they mean (G03).                     *)
(***************************************************************************)
EXTENDS Grounding, Json, CSV, IOUtils
CONSTANTS Lang, Depth
\* the way a program takes to the grounder: plain text or trees (G07)
Route(x) == IF Lang = "tree" THEN RandomElement({"ast", "str", "copy", "unpool"}) ELSE "plain"
VARIABLES h, prg, gone, stages
vars == <<h, prg, gone, stages>>
R(S) == RandomElement(S)
V(x) == [k |-> "v", x |-> x]
C(v) == [k |-> "c", v |-> v]
I(n) == C(Num(n))
Bin(k, a, b) == [k |-> k, a |-> a, b |-> b]
Un1(k, a) == [k |-> k, a |-> a]
Atom(s, p, as) == [k |-> "atom", s |-> s, p |-> p, as |-> as]
Compare(s, l, gs) == [k |-> "cmp", s |-> s, l |-> l, gs |-> gs]

\* a term over variables that are bound elsewhere
RECURSIVE Term(_, _)
Term(vs, d) ==
    LET k == R(IF d = 0 THEN 1..6 ELSE 1..16) IN
    IF k <= 4 THEN (IF vs = {} THEN I(R(0..3)) ELSE V(R(vs)))
    ELSE CASE k = 5 -> I(R((-1)..3)) [] k = 6 -> C(IF R(1..3) = 1 THEN Con(R(1..2)) ELSE Num(R(0..2)))
      [] k \in 7..8 -> Bin("+", Term(vs, d - 1), I(R(1..2)))
      [] k = 9 -> Bin("-", Term(vs, d - 1), Term(vs, d - 1))
      [] k = 10 -> Bin("*", Term(vs, d - 1), I(R((-1)..2)))
      [] k = 11 -> Bin(R({"/", "mod"}), Term(vs, d - 1), Term(vs, d - 1))
      [] k = 12 -> (IF R(1..2) = 1 THEN Un1("neg", Term(vs, d - 1)) ELSE Un1("abs", Term(vs, d - 1)))
      [] k = 13 -> Bin("..", I(R(0..1)), Term(vs, d - 1))
      [] k = 14 -> Bin("pool", Term(vs, d - 1), Term(vs, d - 1))
      [] k = 15 -> (IF R(1..3) = 1 THEN Un1("up", Term(vs, d - 1)) ELSE Un1("f", Term(vs, d - 1)))
      [] OTHER -> Bin("pair", Term(vs, d - 1), Term(vs, d - 1))
\* something a variable can be found by
Inv(x) == LET k == R(1..9) IN CASE k = 1 -> Bin("+", V(x), I(R(1..2))) [] k = 2 -> Bin("-", I(R(1..2)), V(x)) [] k = 3 -> Bin("+", Bin("*", I(2), V(x)), I(1))
    [] k = 4 -> Un1("neg", V(x)) [] OTHER -> V(x)
Pred1 == {"p", "q", "t", "d", "-p"}
Pred2 == {"r", "e"}
T == [k |-> "t"]
Before == Bin("-", T, I(1))
AnyT == [k |-> "any"]
\* the second argument says in which part a rule is
PartLit(x) == LET k == R(1..8) z == IF R(1..2) = 1 THEN T ELSE Before IN
    CASE k \in 1..4 -> Atom(0, "u", <<V(x), z>>) [] k = 5 -> Atom(R(0..2), "w", <<z>>) [] k = 6 -> Atom(R(1..2), "u", <<I(R(0..2)), z>>)
      [] k = 7 -> Atom(R(1..2), "u", <<AnyT, z>>) [] OTHER -> Compare(0, T, <<<<R({"<", ">", "="}), I(1)>>>>)
Binder(x, y) ==
    LET k == R(1..13) IN
    CASE k \in 1..4 -> Atom(0, "d", <<V(x)>>)
      [] k = 13 -> Atom(0, R(Pred2), IF R(1..2) = 1 THEN <<V(x), AnyT>> ELSE <<AnyT, V(x)>>)
      [] k \in 5..6 -> Atom(0, R(Pred1), <<V(x)>>)
      [] k = 7 -> Atom(0, R({"p", "q", "d"}), <<Inv(x)>>)
      [] k = 8 -> Atom(0, "e", <<V(x), V(y)>>)
      [] k = 9 -> Atom(0, R(Pred2), <<V(x), V(y)>>)
      [] k = 10 -> Atom(0, R(Pred2), <<V(x), IF R(1..2) = 1 THEN I(R(0..2)) ELSE V(x)>>)
      [] k = 11 -> Atom(0, "c", <<V(x)>>)
      [] OTHER -> Atom(0, R(Pred2), <<V(y), V(x)>>)
Ops == {"=", "!=", "<", "<=", ">", ">="}
\* within a local context nothing is undefined and everything has one value
Simp(vs) == LET k == R(1..6) IN IF k <= 4 /\ vs # {} THEN V(R(vs)) ELSE I(R(0..2))
Filter(vs) ==
    LET k == R(1..9) IN
    CASE k = 9 -> IF R(1..3) = 1 THEN Atom(R(1..2), R(Pred1 \ {"-p"}), <<AnyT>>) ELSE Atom(R(1..2), R(Pred2), IF R(1..2) = 1 THEN <<Simp(vs), AnyT>> ELSE <<AnyT, Simp(vs)>>)
      [] k \in 1..4 -> Compare(R({0, 0, 1, 2}), Term(vs, 1), <<<<R(Ops), Term(vs, 1)>>>>)
      [] k = 5 -> Compare(R({0, 1}), I(R(0..1)), <<<<R({"<", "<="}), Term(vs, 0)>>, <<R({"<", "<=", "!="}), Term(vs, 0)>>>>)
      [] k = 6 -> Atom(R(0..2), R(Pred2), <<Term(vs, 0), Term(vs, 1)>>)
      [] OTHER -> Atom(R({1, 1, 2, 0}), R(Pred1), <<Term(vs, IF R(1..3) = 1 THEN 1 ELSE 0)>>)
LFilter(vs) ==
    LET k == R(1..4) IN
    CASE k = 1 -> Compare(0, Simp(vs), <<<<R(Ops), Simp(vs)>>>>)
      [] k = 2 -> Atom(R(0..2), R(Pred2), <<Simp(vs), Simp(vs)>>)
      [] OTHER -> Atom(R(0..2), R(Pred1), <<Simp(vs)>>)
LBinder(vs) == LET k == R(1..6) IN
    CASE k \in 1..2 -> Atom(0, "d", <<V("L")>>) [] k = 3 -> Atom(0, R({"p", "q", "t"}), <<V("L")>>)
      [] k = 4 -> Atom(0, R(Pred2), <<Simp(vs), V("L")>>) [] k = 5 -> Atom(0, "c", <<V("L")>>) [] OTHER -> Atom(0, R(Pred2), <<V("L"), Simp(vs)>>)
LCond(vs) == LET k == R(1..3) IN <<LBinder(vs)>> \o (IF k = 1 THEN <<LFilter(vs \cup {"L"})>> ELSE <<>>)
FCond(vs) == <<Atom(0, R({"d", "c"}), <<V("L")>>)>> \o (IF R(1..3) = 1 THEN <<Compare(0, V("L"), <<<<R(Ops), Simp(vs)>>>>)>> ELSE <<>>)
LHead(vs) == LET k == R(1..4) IN IF k = 1 THEN Atom(R(0..2), R(Pred2), <<Simp(vs), Simp(vs)>>) ELSE IF k = 2 THEN Compare(0, Simp(vs), <<<<R(Ops), Simp(vs)>>>>) ELSE Atom(R({0, 0, 1, 2}), R(Pred1), <<Simp(vs)>>)
CondLit(vs) == [k |-> "cond", h |-> LHead(vs \cup {"L"}), c |-> LCond(vs)]
Fns == {"#sum", "#sum", "#count", "#sum+", "#min", "#max"}
Weight(vs) == LET k == R(1..5) IN CASE k = 1 -> I(R((-2)..3)) [] k = 2 -> Bin("*", V("L"), I(R({-1, 2}))) [] k = 3 -> Simp(vs \cup {"L"}) [] OTHER -> V("L")
AElem(vs) == [t |-> <<Weight(vs)>> \o (IF R(1..2) = 1 THEN <<Simp(vs \cup {"L"})>> ELSE <<>>), c |-> LCond(vs)]
NoG == <<"", I(0)>>
Agg(vs, n) ==
    LET fn == R(Fns) g == R(1..4) es == IF R(1..3) = 1 THEN <<AElem(vs), AElem(vs)>> ELSE <<AElem(vs)>> IN
    IF n THEN [k |-> "agg", s |-> 0, fn |-> fn, l |-> <<"=", V("N")>>, r |-> NoG, es |-> es]
    ELSE [k |-> "agg", s |-> R({0, 0, 1, 2}), fn |-> fn, l |-> IF g \in {1, 2, 3} THEN <<R(Ops), Term(vs, 0)>> ELSE NoG, r |-> IF g \in {1, 4} THEN <<R({"<", "<=", ">"}), Term(vs, 0)>> ELSE NoG, es |-> es]
Binders(n) == CASE n = 0 -> <<>> [] n = 1 -> <<Binder("X", "Y")>> [] OTHER -> LET y == R({"X", "Y"}) IN <<Binder("X", "Y"), Binder(y, IF y = "X" THEN "Z" ELSE "X")>>
Assign(vs) == Compare(0, V("M"), <<<<"=", Term(vs, 2)>>>>)
\* a body and the variables it binds
RBody(z) ==
    LET n == R({0, 1, 1, 1, 2, 2})
        bs == Binders(n)
        vs0 == BVars(bs)
        f == R(1..12)
        nag == f = 7
        ex == CASE f \in {1, 2, 3} -> <<Filter(vs0)>> [] f = 4 -> <<Filter(vs0), Filter(vs0)>> [] f \in {5, 6} -> <<Agg(vs0, FALSE)>>
               [] nag -> <<Agg(vs0, TRUE)>> [] f = 8 -> <<CondLit(vs0)>> [] f = 9 -> <<Assign(vs0)>> [] f = 10 -> <<Agg(vs0, FALSE), Filter(vs0)>> [] OTHER -> <<>>
    IN [b |-> IF R(1..3) = 1 THEN ex \o bs ELSE bs \o ex, vs |-> vs0 \cup (IF nag THEN {"N"} ELSE IF f = 9 THEN {"M"} ELSE {})]
H(p, as, c) == [p |-> p, as |-> as, c |-> c]
HAtom(vs, d) == LET k == R(1..8) IN
    CASE k \in 1..4 -> H(R({"p", "q", "t"}), <<Term(vs, d)>>, <<>>) [] k = 5 -> H("s", <<>>, <<>>) [] k = 6 -> H("-p", <<Term(vs, 0)>>, <<>>)
      [] OTHER -> H("r", <<Term(vs, 0), Term(vs, d)>>, <<>>)
HCond(vs) == LET k == R(1..3) IN
    IF k = 1 THEN H(R({"p", "q", "t"}), <<Simp(vs \cup {"L"})>>, FCond(vs)) ELSE IF k = 2 THEN H("r", <<Simp(vs), Simp(vs \cup {"L"})>>, FCond(vs)) ELSE H(R({"p", "q", "t"}), <<Simp(vs)>>, <<>>)
Stm(t, lo, hi, hs, b, w, prio, ts, p, n) == [t |-> t, lo |-> lo, hi |-> hi, hs |-> hs, b |-> b, w |-> w, prio |-> prio, ts |-> ts, p |-> p, n |-> n, part |-> "base"]
Rule(t, lo, hi, hs, b) == Stm(t, lo, hi, hs, b, I(0), I(0), <<>>, "", 0)
Fact(p, as) == Rule("norm", 0, 0, <<H(p, as, <<>>)>>, <<>>)
Statement(z) ==
    LET x == RBody(z) k == R(1..21) IN
    CASE k = 21 -> Stm("edge", 0, 0, <<>>, x.b, I(0), I(0), <<Simp(x.vs), Simp(x.vs)>>, "", 0)
      [] k \in 1..9 -> Rule("norm", 0, 0, <<HAtom(x.vs, IF R(1..2) = 1 THEN 1 ELSE 0)>>, x.b)
      [] k \in 10..13 -> Rule("choice", R({0, 0, 1}), R({0, 0, 2, 3}), IF R(1..3) = 1 THEN <<HCond(x.vs), HCond(x.vs)>> ELSE <<HCond(x.vs)>>, x.b)
      [] k = 14 -> Rule("disj", 0, 0, <<HCond(x.vs), HCond(x.vs)>>, x.b)
      [] k = 15 -> Rule("disj", 0, 0, <<>>, IF x.b = <<>> THEN <<Atom(0, "s", <<>>), Atom(1, "p", <<I(1)>>)>> ELSE x.b)
      [] k = 16 -> Stm("min", 0, 0, <<>>, x.b, Term(x.vs, 1), I(R(0..1)), IF R(1..2) = 1 THEN <<Term(x.vs, 0)>> ELSE <<>>, "", 0)
      [] k = 17 -> Stm("term", 0, 0, <<>>, x.b, Term(x.vs, 1), I(0), <<>>, "", 0)
      [] k = 18 -> Rule("ext", 0, 0, <<H(R({"p", "q"}), <<Simp(x.vs)>>, <<>>)>>, x.b)
      [] k = 19 -> LET q == R({<<"p", 1>>, <<"r", 2>>, <<"-p", 1>>, <<"s", 0>>, <<"", 0>>}) IN Stm("sig", 0, 0, <<>>, <<>>, I(0), I(0), <<>>, q[1], q[2])
      [] OTHER -> Rule("norm", 0, 0, <<HAtom(x.vs, 1)>>, x.b)
RECURSIVE Several(_)
Several(n) == IF n = 0 THEN <<>> ELSE Append(Several(n - 1), Statement(n))
E1(z) == Fact("e", <<I(R(0..2)), I(R(0..3))>>)
Base(x) == <<Fact("d", <<Bin("..", I(0), I(R(1..2)))>>), E1(x), Fact("e", <<I(R(0..1)), I(R(1..3))>>)>>
    \o (IF R(1..2) = 1 THEN <<Fact("c", <<C(Con(R(1..2)))>>)>> ELSE <<Fact("c", <<IF R(1..2) = 1 THEN Un1("f", I(1)) ELSE I(1)>>), Fact("e", <<C(Con(1)), I(R(1..3))>>)>>)
    \o (IF R(1..2) = 1 THEN <<Rule("choice", 0, 0, <<H("p", <<V("L")>>, <<Atom(0, "d", <<V("L")>>)>>)>>, <<>>)>> ELSE <<>>)
    \o Several(R(2..5))
\* statements of the part step(t): what they derive is new in every step
UHead(vs) == IF R(1..4) = 1 THEN H("w", <<T>>, <<>>) ELSE H("u", <<Term(vs, IF R(1..2) = 1 THEN 1 ELSE 0), T>>, <<>>)
UCond(vs) == IF R(1..3) = 1 THEN H("w", <<T>>, <<>>) ELSE H("u", <<Simp(vs \cup {"L"}), T>>, <<Atom(0, R({"d", "c"}), <<V("L")>>)>>)
PartStatement(z) ==
    LET y == RBody(z) l == PartLit("Z") k == R(1..14) b == IF R(1..3) = 1 THEN y.b ELSE IF R(1..2) = 1 THEN <<l>> \o y.b ELSE y.b \o <<l>>
        vs == y.vs \cup (IF Len(b) > Len(y.b) /\ l.k = "atom" /\ l.s = 0 /\ l.p = "u" THEN {"Z"} ELSE {}) IN
    [(CASE k \in 1..6 -> Rule("norm", 0, 0, <<UHead(vs)>>, b)
       [] k \in 7..9 -> Rule("choice", R({0, 0, 1}), R({0, 0, 2}), IF R(1..3) = 1 THEN <<UCond(vs), UCond(vs)>> ELSE <<UCond(vs)>>, b)
       [] k = 10 -> Rule("disj", 0, 0, <<H("u", <<Simp(vs), T>>, <<>>), H("w", <<T>>, <<>>)>>, b)
       [] k = 11 -> Rule("disj", 0, 0, <<>>, b \o <<Atom(R({0, 1}), "u", <<I(R(0..1)), T>>)>>)
       [] k = 12 -> Stm("min", 0, 0, <<>>, b, Term(vs, 1), I(R(0..1)), <<T>>, "", 0)
       [] k = 13 -> Stm("term", 0, 0, <<>>, b, Bin("pair", Term(vs, 0), T), I(0), <<>>, "", 0)
       [] OTHER -> Rule("norm", 0, 0, <<UHead(vs)>>, b)) EXCEPT !.part = "step"]
RECURSIVE SeveralParts(_)
SeveralParts(n) == IF n = 0 THEN <<>> ELSE Append(SeveralParts(n - 1), PartStatement(n))
Text(p) == FoldLeft(LAMBDA a, st : a \o SText(st) \o "\n", "", p)
Of(p, n) == SelectSeq(p, LAMBDA s : s.part = n)
Single == {<<"base", Num(0)>>}
S1(n) == <<"step", Num(n)>>
Plans == {<<Single, {S1(1)}, {S1(2)}>>, <<Single \cup {S1(1)}, {S1(2)}>>, <<Single, {S1(1), S1(2)}>>}
New == h = <<>> /\ prg = <<>> /\ gone = [P |-> {}, gr |-> <<>>]
       /\ \E p \in {Base(1) \o (IF R(1..2) = 1 THEN SeveralParts(R(1..3)) ELSE <<>>)} :
          /\ prg' = p
          /\ stages' = IF Of(p, "step") = <<>> THEN <<Single>> ELSE R(Plans)
          /\ h' = <<[op |-> "g_new", route |-> Route(h), exp |-> "ok"], [op |-> "g_add", part |-> "base", params |-> <<>>, text |-> Text(Of(p, "base")), exp |-> "ok"]>>
                 \o (IF Of(p, "step") = <<>> THEN <<>> ELSE <<[op |-> "g_add", part |-> "step", params |-> <<"t">>, text |-> Text(Of(p, "step")), exp |-> "ok"]>>)
       /\ gone' = gone
PartOf(s) == [name |-> s[1], args |-> IF s[1] = "base" THEN <<>> ELSE <<s[2][2]>>]
Stop == stages' = <<>> /\ UNCHANGED <<h, prg, gone>>
Solve ==
    /\ prg # <<>> /\ stages # <<>> /\ prg' = prg
    /\ \E P \in {Reach(prg, stages[1], gone.P)} :
       IF TooBig(P) THEN Stop
       ELSE \E gr \in {gone.gr \o Freeze(GroundAll(prg, stages[1], 1, P), P)} : \E F \in {Facts(gr, {})} :
         IF Cardinality(P \ F) > 7 THEN Stop
         ELSE \E Ms \in {SetToSeq(Stable(gr, F, P \ F))} :
           /\ stages' = Tail(stages)
           /\ gone' = [P |-> P, gr |-> gr]
           /\ \E ps \in {SetToSeq({PartOf(s) : s \in stages[1]})} :
              h' = h \o <<[op |-> "g_ground", parts |-> ps, exp |-> "ok"],
                  [op |-> "g_solve", exp |-> [bag |-> [i \in 1..Len(Ms) |-> [shown |-> [bag |-> SetToSeq(Shown(prg, gr, Ms[i]))], cost |-> Costs(gr, Ms[i])]]]]>>
Next == IF prg = <<>> THEN New ELSE IF stages # <<>> THEN Solve ELSE UNCHANGED vars
Init == h = <<>> /\ prg = <<>> /\ gone = [P |-> {}, gr |-> <<>>] /\ stages = <<>>
Spec == Init /\ [][Next]_vars
Emit == stages # <<>> \/ Len(h) < 4 \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
