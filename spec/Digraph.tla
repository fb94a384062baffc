------------------------------ MODULE Digraph -------------------------------
(***************************************************************************)
(* Dependency analysis (G02): a graph grows and is analysed again and       *)
(* again; each analysis gives the classes of mutually reachable nodes, every *)
(* class after the classes it depends on.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth, N, Ex
VARIABLES h, n, E
vars == <<h, n, E>>
\* E: sequence of edges <<a, b>>, a depends on b
RECURSIVE Reach(_, _)
Reach(S, suc) == LET T == S \cup UNION {suc[x] : x \in S} IN IF T = S THEN S ELSE Reach(T, suc)
Star(es, m) ==
    LET suc == [a \in 1..m |-> {es[j][2] : j \in {i \in 1..Len(es) : es[i][1] = a}}] IN UNION {{<<a, b>> : b \in Reach({a}, suc)} : a \in 1..m}
Class(R, m, a) == {b \in 1..m : <<a, b>> \in R /\ <<b, a>> \in R}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* classes, named by their least members, and which need which
Analysis(es, m) ==
    LET R == Star(es, m)
        cs == {Class(R, m, a) : a \in 1..m} IN
    [op |-> "gr_scc", need |-> SetToSeq({<<Least(c), Least(d)>> : c, d \in cs} \cap {<<a, b>> \in R : a \notin Class(R, m, b)}),
     exp |-> [sccs |-> [bag |-> SetToSeq({[bag |-> SetToSeq(c)] : c \in cs})], ordered |-> TRUE]]
NewEx == \E S \in SUBSET ((1..N) \X (1..N)) : \E es \in {SetToSeq(S)} :
    /\ n' = N /\ E' = es /\ h' = <<[op |-> "gr_new", n |-> N, e |-> es, exp |-> "ok"]>>
RECURSIVE Rnd(_, _)
Rnd(m, k) == IF k = 0 THEN <<>> ELSE <<<<RandomElement(1..m), RandomElement(1..m)>>>> \o Rnd(m, k - 1)
New == \E m \in {RandomElement(1..N)} : \E es \in {Rnd(m, RandomElement(0..(2 * m)))} :
    n' = m /\ E' = es /\ h' = <<[op |-> "gr_new", n |-> m, e |-> es, exp |-> "ok"]>>
Grow == \E k \in {RandomElement(0..2)} : \E m \in {IF n + k > 8 THEN n ELSE n + k} : \E es \in {Rnd(m, RandomElement(0..4))} :
    n' = m /\ E' = E \o es /\ h' = Append(h, [op |-> "gr_grow", n |-> m, e |-> es, exp |-> "ok"])
Analyse == \E a \in {Analysis(E, n)} : h' = Append(h, a) /\ UNCHANGED <<n, E>>
Next == IF Len(h) >= Depth THEN UNCHANGED vars
        ELSE IF h = <<>> THEN (IF Ex THEN NewEx ELSE New)
        ELSE IF Ex THEN Analyse
        ELSE \E x \in {RandomElement(1..3)} : IF x = 1 THEN Grow ELSE Analyse
Init == h = <<>> /\ n = 0 /\ E = <<>>
Spec == Init /\ [][Next]_vars
\* the classes are a partition, and "needs" between them has no cycle
Sound == n > 0 => LET R == Star(E, n) IN
    /\ UNION {Class(R, n, a) : a \in 1..n} = 1..n
    /\ \A a, b \in 1..n : (<<a, b>> \in R /\ <<b, a>> \in R) = (Class(R, n, a) = Class(R, n, b))
    /\ \A a, b, c \in 1..n : <<a, b>> \in R /\ <<b, c>> \in R => <<a, c>> \in R
Emit == Len(h) < Depth \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
