-------------------------------- MODULE Prop -------------------------------
(***************************************************************************)
(* C08: constraints stated by propagators.  The program is a choice over    *)
(* some atoms with defined atoms and constraints, extended in later steps;  *)
(* a propagator states clauses, weight constraints, minimize terms and      *)
(* fresh literals at initialisation and enforces lazy constraints during    *)
(* the search.  Models of a solve call are those of the program that        *)
(* satisfy what has been stated.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Lang, Solves
VARIABLES h, step, prog, cons, mins, defs, stuck
vars == <<h, step, prog, cons, mins, defs, stuck>>
R(S) == RandomElement(S)
One(S) == {RandomElement(S)}

\* the program: choices ch, definitions df = <<head, positive, negative>>, constraints ic = set of literals
Texts == <<"{a; b; c}. d :- a, not b.", "{e; f}. g :- e, not c. g :- f, a. :- e, f, b.", "{k}. m :- k, not g.">>
Choices == <<{"a", "b", "c"}, {"e", "f"}, {"k"}>>
Derived(M) == (IF "a" \in M /\ "b" \notin M THEN {"d"} ELSE {})
Derived2(M) == IF ("e" \in M /\ "c" \notin M) \/ ("f" \in M /\ "a" \in M) THEN {"g"} ELSE {}
Full(M, n) == LET M1 == M \cup Derived(M) M2 == IF n >= 2 THEN M1 \cup Derived2(M1) ELSE M1 IN
              IF n >= 3 /\ "k" \in M2 /\ "g" \notin M2 THEN M2 \cup {"m"} ELSE M2
Stable(n) == {Full(M, n) : M \in {X \in SUBSET UNION {Choices[i] : i \in 1..n} : ~({"e", "f", "b"} \subseteq X)}}
Atoms(n) == UNION {CASE i = 1 -> {"a", "b", "c", "d"} [] i = 2 -> {"e", "f", "g"} [] OTHER -> {"k", "m"} : i \in 1..n}

\* fresh literals are conjunctions: D is a function from names to sequences of literals
RECURSIVE Holds(_, _, _)
Holds(D, M, l) == (IF l[1] \in DOMAIN D THEN \A i \in 1..Len(D[l[1]]) : Holds(D, M, D[l[1]][i]) ELSE l[1] \in M) = (l[2] = 1)
RECURSIVE SumOf(_, _, _)
SumOf(D, M, wl) == IF wl = <<>> THEN 0 ELSE (IF Holds(D, M, <<wl[1][1], wl[1][2]>>) THEN wl[1][3] ELSE 0) + SumOf(D, M, Tail(wl))
Sat(D, M, c) ==
    CASE c.k = "clause" -> \E i \in 1..Len(c.lits) : Holds(D, M, c.lits[i])
      [] c.k = "nogood" -> \E i \in 1..Len(c.lits) : ~Holds(D, M, c.lits[i])
      [] c.k = "wc" -> LET s == SumOf(D, M, c.wl) v == s >= c.bound l == Holds(D, M, c.lit) IN
                       CASE c.eq -> l /\ s = c.bound [] c.type = 0 -> l = v [] c.type < 0 -> (v => l) [] OTHER -> (l => v)
      [] OTHER -> TRUE
SatAll(D, M, C) == \A i \in 1..Len(C) : Sat(D, M, C[i])

\* random literals over atoms
RECURSIVE RndLits(_, _), RndW(_, _)
RndLits(n, S) == IF n = 0 \/ S = {} THEN <<>> ELSE LET a == R(S) s == R({0, 1}) IN Append(RndLits(n - 1, S \ {a}), <<a, s>>)
RndW(n, S) == IF n = 0 \/ S = {} THEN <<>> ELSE LET a == R(S) s == R({0, 1}) w == R({1, 2, 3, -1, -2, 5}) b == R(1..5) IN
              Append(RndW(n - 1, IF b = 1 THEN S ELSE S \ {a}), <<a, s, w>>)
RndLit(S) == <<R(S), R({0, 1})>>
RndBound == R({-1, 0, 1, 2, 3, 4})
\* an action at initialisation.  The installed solver has two particularities:
\* an implication whose sum is decided fixes its literal,  one whose literal is decided its sum, and equalities
\* make the literal true; so implications are stated where candidates of all kinds
\* are left, and equalities first of all and at the extreme values
RECURSIVE WMax(_)
WMax(wl) == IF wl = <<>> THEN 0 ELSE (IF wl[1][3] > 0 THEN wl[1][3] ELSE 0) + WMax(Tail(wl))
Wc(S, D, X, C) ==
    LET l == RndLit(S) wl == RndW(R(1..4), S \ {l[1]}) b == RndBound t == R({-1, 0, 1})
        t2 == IF t = 0 \/ (\A M \in X : SumOf(D, M, wl) >= b) \/ (\A M \in X : Holds(D, M, l)) \/ (\A M \in X : ~Holds(D, M, l)) \/ \A N \in X : SumOf(D, N, wl) < b THEN 0 ELSE t
    IN [k |-> "wc", lit |-> l, wl |-> wl, bound |-> b, type |-> t2, eq |-> FALSE]
EqWc(x) == LET wl == <<<<"a", R({0, 1}), R(1..3)>>, <<"b", R({0, 1}), R({1, 2, -1})>>>> IN
    [k |-> "wc", lit |-> <<R({"c", "d"}), R({0, 1})>>, wl |-> wl, bound |-> WMax(wl), type |-> 0, eq |-> TRUE]
RndAct(S, D, X, C, i, x) == LET c == R(1..10) IN
    CASE ~x /\ C = <<>> /\ i = 10 /\ R(1..8) = 1 -> EqWc(x)
      [] c \in 1..3 \/ (x /\ c \in 4..6) -> [k |-> "clause", lits |-> RndLits(R(1..3), S)]
      [] c \in 4..6 -> Wc(S, D, X, C)
      [] c = 7 -> [k |-> "prop"]
      [] c = 8 -> [k |-> "freeze", lit |-> RndLit(S)]
      [] OTHER -> [k |-> "fresh", name |-> "x" \o ToString(i), lits |-> RndLits(R(0..2), S), freeze |-> R(BOOLEAN)]
\* S: atoms and fresh names, D: definitions, X: remaining candidates
RECURSIVE Acts(_, _, _, _, _, _, _, _)
Acts(n, S, D, X, C, i, mt, acc) == IF n = 0 THEN acc ELSE
    LET a == RndAct(S, D, X, C, i, mt) IN
    CASE a.k = "fresh" -> Acts(n - 1, S \cup {a.name}, D @@ (a.name :> a.lits), X, C, i + 1, mt, Append(acc, a))
      [] OTHER -> Acts(n - 1, S, D, {M \in X : Sat(D, M, a)}, C \o <<a>>, i + 1, mt, Append(acc, a))
RECURSIVE Mins(_, _, _)
Mins(n, S, x) == IF n = 0 THEN <<>> ELSE Append(Mins(n - 1, S, <<x>>), [k |-> "min", lit |-> RndLit(S), w |-> R({1, 2, 3, -1}), p |-> R({0, 1, 2})])
RECURSIVE AddDefs(_, _)
AddDefs(D, A) == IF A = <<>> THEN D ELSE AddDefs(IF A[1].k = "fresh" THEN D @@ (A[1].name :> A[1].lits) ELSE D, Tail(A))
Stated(A) == SelectSeq(A, LAMBDA a : a.k \in {"clause", "wc"})
\* lazy constraints
RECURSIVE Lazy(_, _, _)
Lazy(n, S, x) == IF n = 0 THEN <<>> ELSE
    LET r == [k |-> R({"clause", "nogood"}), lits |-> RndLits(R(1..3), S), tag |-> R(BOOLEAN), lock |-> R(BOOLEAN), when |-> R({"check", "prop", "prop"})]
    IN Append(Lazy(n - 1, S, <<x, n>>), r)

RECURSIVE CostAt(_, _, _, _)
CostAt(D, M, ms, p) == IF ms = <<>> THEN 0 ELSE (IF ms[1].p = p /\ Holds(D, M, ms[1].lit) THEN ms[1].w ELSE 0) + CostAt(D, M, Tail(ms), p)
Prios(ms) == {ms[i].p : i \in 1..Len(ms)}
RECURSIVE SortDesc(_)
SortDesc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x >= y IN <<m>> \o SortDesc(S \ {m})
Cost(D, M, ms) == LET p == SortDesc(Prios(ms)) IN [i \in 1..Len(p) |-> CostAt(D, M, ms, p[i])]
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF a = <<>> THEN FALSE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLt(Tail(a), Tail(b)))
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Order == <<"a", "b", "c", "d", "e", "f", "g", "k", "m">>
Names(M) == SelectSeq(Order, LAMBDA x : x \in M)

\* a lazy constraint is certain to have been stated if it is what excludes some candidate
Certain(D, X, C, L, i) == \E M \in X : SatAll(D, M, C) /\ ~Sat(D, M, L[i]) /\ \A j \in 1..Len(L) : j # i => Sat(D, M, L[j])
Init == h = <<>> /\ step = 1 /\ prog = 1 /\ cons = <<>> /\ mins = <<>> /\ defs = <<>> /\ stuck = FALSE
New == \E opt \in One({"none", "none", "optN"}) :
    /\ h' = <<[op |-> "p_new", opt |-> opt, threads |-> IF opt = "optN" THEN 1 ELSE R({1, 2}), mode |-> R({"total", "fixpoint", "both"}), other |-> R(BOOLEAN), decide |-> R(BOOLEAN)]>>
    /\ UNCHANGED <<step, prog, cons, mins, defs, stuck>>
\* constraints found by one of several threads need not be known to the others later,
\* and the installed solver shares weight constraints wrongly
Mt == h[1].threads > 1
Opt == h[1].opt = "optN"
Solve ==
    \E grow \in One(BOOLEAN) : LET n == IF step > 1 /\ grow /\ prog < 3 THEN prog + 1 ELSE prog IN
    \E A0 \in {Acts(R(0..4), Atoms(n), defs, {M \in Stable(n) : SatAll(defs, M, cons)}, cons, 10 * step, Mt, <<>>)} : \E ms \in {IF Opt /\ step = 1 THEN Mins(R(1..3), Atoms(n), h) ELSE <<>>} :
    LET D == AddDefs(defs, A0) IN
    \E L0 \in {Lazy(R(0..3), Atoms(n), h)} :
    LET C == cons \o Stated(A0) X == Stable(n) ms2 == mins \o ms
        C1 == {M \in X : SatAll(D, M, C)}
        L == L0
        Y == {M \in C1 : SatAll(D, M, L)}
        res == IF Opt /\ Y # {} THEN {M \in Y : \A N \in Y : ~LexLt(Cost(D, N, ms2), Cost(D, M, ms2))} ELSE Y
        \* with minimisation not all candidates are visited
        keep == SelectSeq([i \in 1..Len(L) |-> [L[i] EXCEPT !.tag = L[i].tag \/ ~L[i].lock \/ Opt \/ Mt \/ ~Certain(D, X, C, L, i)]], LAMBDA l : ~l.tag)
        L2 == [i \in 1..Len(L) |-> [L[i] EXCEPT !.tag = L[i].tag \/ ~L[i].lock \/ Opt \/ Mt \/ ~Certain(D, X, C, L, i)]]
    IN
    \* constraints that might or might not have been stated are made volatile
    /\ h' = Append(h, [op |-> "p_solve", text |-> IF n = prog /\ step > 1 THEN "" ELSE Texts[n], n |-> n, acts |-> A0 \o ms, lazy |-> L2, atoms |-> Names(Atoms(n)),
                       exp |-> [models |-> [bag |-> SetSeq({Names(M) : M \in res})], cost |-> IF Opt /\ Y # {} THEN SelectSeq(Cost(D, CHOOSE M \in res : TRUE, ms2), LAMBDA v : v # 0) ELSE <<>>,
                                sat |-> Y # {}, ok |-> TRUE]])
    /\ step' = step + 1 /\ prog' = n /\ cons' = C \o keep /\ mins' = ms2 /\ defs' = D
    \* a conflict at the top level stays
    /\ stuck' = (C1 = {})
Next == IF h = <<>> THEN New ELSE IF step <= Solves /\ ~stuck THEN Solve
        ELSE IF h[Len(h)].op # "end" THEN h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<step, prog, cons, mins, defs, stuck>> ELSE UNCHANGED vars
Emit == h = <<>> \/ h[Len(h)].op # "end" \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
