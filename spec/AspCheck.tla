------------------------------ MODULE AspCheck ------------------------------
(* The computation of stable models used by the specifications agrees with   *)
(* the textbook definition on every program of up to three rules over two    *)
(* atoms; grounding-time simplification preserves them when all is known.    *)
EXTENDS Asp
CONSTANT N
VARIABLE p
A == {"a", "-a", "b"}
Ls == {Lit(a, s) : a \in {"a", "b"}, s \in 0..2}
Bs == {<<>>} \cup {<<l>> : l \in Ls} \cup {<<Lit("a", 0), Lit("b", 1)>>}
Rs == {Rule(hd, b) : hd \in {<<>>, <<"a">>, <<"b">>, <<"a", "b">>}, b \in Bs}
      \cup {Choice(hd, b) : hd \in {<<"a">>, <<"a", "b">>}, b \in {<<>>, <<Lit("b", 0)>>}}
      \cup {[Choice(<<"a", "b">>, <<>>) EXCEPT !.lo = 1, !.hi = 1]}
      \cup {[Rule(<<"-a">>, <<>>) EXCEPT !.k = 2, !.w = <<WLit("a", 1, 1), WLit("b", 0, 2)>>]}
R1 == {r \in Rs : ~(r.h = <<>> /\ r.b = <<>> /\ r.k < 0)}
Init == p = {}
Next == Cardinality(p) < N /\ \E r \in R1 : p' = p \cup {r}
Agree == StableModels(p) = StableModelsDef(p)
\* literals over underivable atoms are the only ones grounding may decide
Simp == LET S == Possible(p, {}) IN StableModels(Simplify(p, S)) = StableModels(p)
=============================================================================
