------------------------------- MODULE Reify --------------------------------
(***************************************************************************)
(* Reification (G06): the statements of a ground program, step by step, and *)
(* what the facts have to say about them.  A fact is read with its tuples   *)
(* in place: sets of atoms and literals, weights added up per literal,      *)
(* sequences of theory terms.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth
VARIABLES h, cfg, acc, k
vars == <<h, cfg, acc, k>>
\* acc: tuples mentioned so far (per kind): what has to be told apart, and what may be
One(S) == {RandomElement(S)}
Rg(s) == {s[i] : i \in 1..Len(s)}
Atom(d) == IF RandomElement(1..8) = 1 THEN RandomElement({10, 300, 65537, 2147483647}) ELSE RandomElement(1..6)
Lit(d) == IF RandomElement(1..3) = 1 THEN 0 - Atom(d) ELSE Atom(d)
Id(d) == IF RandomElement(1..6) = 1 THEN RandomElement({11, 12, 100000}) ELSE RandomElement(0..5)
RECURSIVE Atoms(_), Lits(_), WLits(_, _), Ids(_)
Atoms(n) == IF n = 0 THEN <<>> ELSE <<Atom(n)>> \o Atoms(n - 1)
Lits(n) == IF n = 0 THEN <<>> ELSE <<Lit(n)>> \o Lits(n - 1)
WLits(n, s) == IF n = 0 THEN <<>> ELSE <<<<Lit(n), s * RandomElement(1..3)>>>> \o WLits(n - 1, s)
Ids(n) == IF n = 0 THEN <<>> ELSE <<Id(n)>> \o Ids(n - 1)
Len1(d) == RandomElement({0, 1, 1, 2, 2, 3, 4})
As(d) == Atoms(Len1(d))
Ls(d) == Lits(Len1(d))
Ws(d, s) == WLits(Len1(d), s)
Is(d) == Ids(Len1(d))
Num(d) == RandomElement({0, 1, 2, 7, 0 - 1, 0 - 5, 2147483647, 0 - 2147483647})
Terms == <<"a", "p(1)", "p(2)", "f(a,b)", "g(\"x,)\")", "-c(1)", "3", "-3", "(1,2)", "(a,)", "\"s=\"", "h(\"a\\\"b\")", "#inf", "f(-1,())">>
Strs == <<"x", "<=", "+", "a b", "q\"r", "b\\c", "n\nl", "", "(", "=1", "foo">>
Val == <<"free", "true", "false", "release">>  \* (the order in which the driver numbers them)
Heu == <<"level", "sign", "factor", "init", "true", "false">>
Stm(d) == LET y == RandomElement(1..20) c == RandomElement({TRUE, FALSE}) IN
    CASE y <= 5 -> [s |-> "rule", ch |-> c, head |-> As(1), body |-> Ls(2)]
      [] y \in 6..8 -> [s |-> "wrule", ch |-> c, head |-> As(1), bound |-> RandomElement(0..9), wb |-> Ws(1, 1)]
      [] y = 9 -> [s |-> "minimize", prio |-> Num(1), wb |-> Ws(1, RandomElement({1, 0 - 1}))]
      [] y = 10 -> [s |-> "project", head |-> Atoms(RandomElement(1..3))]
      [] y \in 11..12 -> [s |-> "output", str |-> Terms[RandomElement(1..Len(Terms))], body |-> Ls(1)]
      [] y = 13 -> [s |-> "external", a |-> Atom(1), v |-> RandomElement(1..4)]
      [] y = 14 -> [s |-> "assume", body |-> Ls(1)]
      [] y = 15 -> [s |-> "heuristic", a |-> Atom(1), v |-> RandomElement(1..6), bias |-> Num(1), p |-> RandomElement({0, 1, 5, 2147483647}), body |-> Ls(1)]
      [] y = 16 -> [s |-> "edge", u |-> RandomElement(0..5), w |-> Num(2), body |-> Ls(1)]
      [] y = 17 -> CASE RandomElement(1..2) = 1 -> [s |-> "tnum", id |-> Id(1), n |-> Num(1)]
                     [] OTHER -> [s |-> "tstr", id |-> Id(1), str |-> Strs[RandomElement(1..Len(Strs))]]
      [] y = 18 -> [s |-> "tcomp", id |-> Id(1), c |-> RandomElement((0 - 3)..4), ids |-> Is(2)]
      [] y = 19 -> [s |-> "telem", id |-> Id(1), ids |-> Is(2), body |-> Ls(3)]
      [] OTHER -> [s |-> "tatom", at |-> RandomElement({0, Atom(1)}), id |-> Id(2), ids |-> Is(3), guard |-> c, c |-> Id(4), r |-> Id(5)]
RECURSIVE Stms(_)
Stms(n) == IF n = 0 THEN <<>> ELSE <<Stm(n)>> \o Stms(n - 1)
\* weights of the same literal add up
WSum(w, l) == LET F[i \in 0..Len(w)] == IF i = 0 THEN 0 ELSE F[i - 1] + (IF w[i][1] = l THEN w[i][2] ELSE 0) IN F[Len(w)]
WSet(w) == {<<l, WSum(w, l)>> : l \in {w[i][1] : i \in 1..Len(w)}}
B(S) == [bag |-> SetToSeq(S)]
Seqq(t) == CASE t = 0 - 1 -> "tuple" [] t = 0 - 2 -> "set" [] OTHER -> "list"
\* what the facts say about a statement (as sets, so that equal statements are one)
Say(x) ==
    CASE x.s = "rule" -> {<<"rule", IF x.ch THEN "choice" ELSE "disjunction", Rg(x.head), Rg(x.body)>>}
      [] x.s = "wrule" -> {<<"wrule", IF x.ch THEN "choice" ELSE "disjunction", Rg(x.head), x.bound, WSet(x.wb)>>}
      [] x.s = "minimize" -> {<<"minimize", x.prio, WSet(x.wb)>>}
      [] x.s = "project" -> {<<"project", a>> : a \in Rg(x.head)}
      [] x.s = "output" -> {<<"output", x.str, Rg(x.body)>>}
      [] x.s = "external" -> {<<"external", x.a, Val[x.v]>>}
      [] x.s = "assume" -> {<<"assume", l>> : l \in Rg(x.body)}
      [] x.s = "heuristic" -> {<<"heuristic", x.a, Heu[x.v], x.bias, x.p, Rg(x.body)>>}
      [] x.s = "edge" -> {<<"edge", x.u, x.w, Rg(x.body)>>}
      [] x.s = "tnum" -> {<<"tnum", x.id, x.n>>}
      [] x.s = "tstr" -> {<<"tstr", x.id, x.str>>}
      [] x.s = "tcomp" -> IF x.c >= 0 THEN {<<"tfun", x.id, x.c, x.ids>>} ELSE {<<"tseq", x.id, Seqq(x.c), x.ids>>}
      [] x.s = "telem" -> {<<"telem", x.id, x.ids, Rg(x.body)>>}
      [] OTHER -> IF x.guard THEN {<<"tguard", x.at, x.id, Rg(x.ids), x.c, x.r>>} ELSE {<<"tatom", x.at, x.id, Rg(x.ids)>>}
Out(f) ==
    CASE f[1] = "rule" -> <<f[1], f[2], B(f[3]), B(f[4])>>
      [] f[1] = "wrule" -> <<f[1], f[2], B(f[3]), f[4], B(f[5])>>
      [] f[1] = "minimize" -> <<f[1], f[2], B(f[3])>>
      [] f[1] \in {"output"} -> <<f[1], f[2], B(f[3])>>
      [] f[1] = "heuristic" -> <<f[1], f[2], f[3], f[4], f[5], B(f[6])>>
      [] f[1] = "edge" -> <<f[1], f[2], f[3], B(f[4])>>
      [] f[1] = "telem" -> <<f[1], f[2], f[3], B(f[4])>>
      [] f[1] = "tguard" -> <<f[1], f[2], f[3], B(f[4]), f[5], f[6]>>
      [] f[1] = "tatom" -> <<f[1], f[2], f[3], B(f[4])>>
      [] OTHER -> f
\* the tuples of a statement
AT(x) == IF x.s \in {"rule", "wrule"} THEN {x.head} ELSE {}
LT(x) == IF x.s \in {"rule", "output", "heuristic", "edge", "telem"} THEN {x.body} ELSE {}
WT(x) == IF x.s \in {"wrule", "minimize"} THEN {x.wb} ELSE {}
TT(x) == IF x.s \in {"tcomp", "telem"} THEN {x.ids} ELSE {}
ET(x) == IF x.s = "tatom" THEN {x.ids} ELSE {}
None == [at |-> {}, lt |-> {}, wt |-> {}, tt |-> {}, et |-> {}]
Add(a, ss) == [at |-> a.at \cup UNION {AT(ss[i]) : i \in 1..Len(ss)}, lt |-> a.lt \cup UNION {LT(ss[i]) : i \in 1..Len(ss)},
               wt |-> a.wt \cup UNION {WT(ss[i]) : i \in 1..Len(ss)}, tt |-> a.tt \cup UNION {TT(ss[i]) : i \in 1..Len(ss)},
               et |-> a.et \cup UNION {ET(ss[i]) : i \in 1..Len(ss)}]
\* tuples that differ have numbers that differ, equal ones share one
Between(lo, hi) == [oneof |-> [i \in 1..(hi - lo + 1) |-> lo + i - 1]]
Nums(a) == [atom_tuple |-> Between(Cardinality({Rg(x) : x \in a.at}), Cardinality(a.at)),
            literal_tuple |-> Between(Cardinality({Rg(x) : x \in a.lt}), Cardinality(a.lt)),
            weighted_literal_tuple |-> Between(Cardinality({WSet(x) : x \in a.wt}), Cardinality(a.wt)),
            theory_tuple |-> Cardinality(a.tt),
            theory_element_tuple |-> Between(Cardinality({Rg(x) : x \in a.et}), Cardinality(a.et))]
\* strongly connected components of the positive dependencies that have more than one atom
Pos(x) == IF x.s = "rule" THEN {l \in Rg(x.body) : l > 0} ELSE {x.wb[i][1] : i \in {j \in 1..Len(x.wb) : x.wb[j][1] > 0}}
Edges(ss) == UNION {UNION {{<<a, b>> : b \in Pos(ss[i])} : a \in Rg(ss[i].head)} : i \in {j \in 1..Len(ss) : ss[j].s \in {"rule", "wrule"}}}
RECURSIVE Close(_)
Close(R) == LET V == {p[1] : p \in R} \cup {p[2] : p \in R}
                U == R \cup {e \in V \X V : \E m \in V : <<e[1], m>> \in R /\ <<m, e[2]>> \in R}
            IN IF U = R THEN R ELSE Close(U)
Comps(ss) == LET R == Close(Edges(ss)) V == {p[1] : p \in R} IN
    {S \in {{b \in V : <<a, b>> \in R /\ <<b, a>> \in R} : a \in V} : Cardinality(S) > 1}
New == \E r \in One({"direct", "make", "base"}) : \E s \in One(BOOLEAN) : \E t \in One(BOOLEAN) : \E inc \in One(BOOLEAN) :
    /\ cfg' = [route |-> r, scc |-> s, steps |-> t]
    /\ h' = <<[op |-> "rf_new", route |-> r, scc |-> s, steps |-> t, inc |-> inc, exp |-> [tag |-> inc]]>>
    /\ UNCHANGED <<acc, k>>
Step(ss) == \E a \in {Add(IF cfg.steps THEN None ELSE acc, ss)} :
    /\ acc' = a /\ k' = k + 1 /\ UNCHANGED cfg
    /\ h' = Append(h, [op |-> "rf_step", stms |-> ss,
         exp |-> [facts |-> [bag |-> [i \in 1..Cardinality(UNION {Say(ss[j]) : j \in 1..Len(ss)}) |-> Out(SetToSeq(UNION {Say(ss[j]) : j \in 1..Len(ss)})[i])]],
                  scc |-> [bag |-> IF cfg.scc THEN SetToSeq({B(S) : S \in Comps(ss)}) ELSE <<>>],
                  step |-> IF cfg.steps THEN k ELSE 0 - 1, nums |-> Nums(a), bad |-> <<>>]])
\* (components without step numbers are for programs of one step)
More == k < Depth /\ ~(cfg.scc /\ ~cfg.steps /\ k = 1)
Next == IF h = <<>> THEN New
        ELSE IF ~More THEN UNCHANGED vars
        ELSE \E n \in One(0..9) : \E ss \in {Stms(n)} : Step(ss)
Init == h = <<>> /\ cfg = [route |-> "", scc |-> FALSE, steps |-> FALSE] /\ acc = None /\ k = 0
Spec == Init /\ [][Next]_vars
Emit == h = <<>> \/ More \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
