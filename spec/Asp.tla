-------------------------------- MODULE Asp --------------------------------
(* Answer-set semantics of ground programs: the oracle every solving-related *)
(* specification in this directory is built on.                              *)
(*                                                                           *)
(* An atom is its text, e.g. "p(1)" or "-q".                                 *)
(* A literal is [a |-> atom, s |-> 0 (a) | 1 (not a) | 2 (not not a)].       *)
(* A rule is [t  |-> "disj" | "choice",  h |-> sequence of atoms,            *)
(*            lo |-> Int, hi |-> Int  (bounds of a choice; -1: none),        *)
(*            b  |-> sequence of literals,                                   *)
(*            k  |-> Int  (lower bound of the weight body; -1: none),        *)
(*            w  |-> sequence of [a, s, w] weighted literals].               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Lit(a, s) == [a |-> a, s |-> s]
WLit(a, s, w) == [a |-> a, s |-> s, w |-> w]
Rule(h, b) == [t |-> "disj", h |-> h, lo |-> -1, hi |-> -1, b |-> b, k |-> -1, w |-> <<>>]
Choice(h, b) == [t |-> "choice", h |-> h, lo |-> -1, hi |-> -1, b |-> b, k |-> -1, w |-> <<>>]

Range2(s) == {s[i] : i \in 1..Len(s)}
HeadSet(r) == Range2(r.h)
PosBody(r) == {l.a : l \in {x \in Range2(r.b) : x.s = 0}}
AtomsOf(P) == UNION {HeadSet(r) \cup {l.a : l \in Range2(r.b)} \cup {l.a : l \in Range2(r.w)} : r \in P}
HeadsOf(P) == UNION {HeadSet(r) : r \in P}

SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)

\* truth of a literal in an interpretation
Holds(l, X) == CASE l.s = 1 -> l.a \notin X [] l.s = 3 -> TRUE [] OTHER -> l.a \in X
SumW(w, X) == SumSeq([i \in 1..Len(w) |-> IF Holds(w[i], X) THEN w[i].w ELSE 0])

\* truth of a body: the whole body in X
BodyHolds(r, X) == /\ \A i \in 1..Len(r.b) : Holds(r.b[i], X)
                   /\ r.k >= 0 => SumW(r.w, X) >= r.k

\* truth of the reduct of the body with respect to X in Y
LitRed(l, X, Y) == CASE l.s = 0 -> l.a \in Y [] l.s = 1 -> l.a \notin X [] l.s = 3 -> TRUE [] OTHER -> l.a \in X
BodyRed(r, X, Y) ==
    /\ \A i \in 1..Len(r.b) : LitRed(r.b[i], X, Y)
    /\ r.k >= 0 => SumSeq([i \in 1..Len(r.w) |-> IF LitRed(r.w[i], X, Y) THEN r.w[i].w ELSE 0]) >= r.k

ChoiceHeads(r, X) == {r.h[i] : i \in {j \in 1..Len(r.h) : r.h[j] \in X}}

\* Y is a model of the reduct of P with respect to X
ModelRed(P, X, Y) ==
    \A r \in P : BodyRed(r, X, Y) =>
        IF r.t = "choice" THEN ChoiceHeads(r, X) \subseteq Y
        ELSE HeadSet(r) \cap Y # {}

\* one application of the immediate consequence operator; a disjunction yields
\* its atoms in X (a superset of what it has to yield in a stable model)
ConsRed(P, X, Y) ==
    UNION {IF BodyRed(r, X, Y)
           THEN IF r.t = "choice" \/ Len(r.h) > 1 THEN ChoiceHeads(r, X) ELSE HeadSet(r)
           ELSE {} : r \in P}
RECURSIVE LfpRed(_, _, _)
LfpRed(P, X, Y) == LET Z == Y \cup ConsRed(P, X, Y) IN IF Z = Y THEN Y ELSE LfpRed(P, X, Z)

\* choice bounds and constraints
Constraints(P, X) ==
    \A r \in P :
        /\ (r.t = "choice" /\ BodyHolds(r, X)) =>
              LET n == Cardinality(HeadSet(r) \cap X)
              IN (r.lo >= 0 => r.lo <= n) /\ (r.hi >= 0 => n <= r.hi)
        /\ (r.t = "disj" /\ BodyHolds(r, X)) => HeadSet(r) \cap X # {}

Consistent(X) == \A a \in X : ("-" \o a) \notin X

IsDisj(r) == r.t = "disj" /\ Len(r.h) > 1

\* the textbook definition
Stable(P, X) ==
    /\ Consistent(X)
    /\ Constraints(P, X)
    /\ LET Q == {r \in P : Len(r.h) > 0} IN
       /\ X \subseteq HeadsOf(Q)
       /\ ModelRed(Q, X, X)
       /\ \A Y \in SUBSET X : Y # X => ~ModelRed(Q, X, Y)
StableModelsDef(P) == {X \in SUBSET HeadsOf(P) : Stable(P, X)}

\* the same set, computed by guessing only what is not determined by derivation
Guessed(P) ==
    (UNION {IF r.t = "choice" \/ IsDisj(r) THEN HeadSet(r) ELSE {} : r \in P}
     \cup UNION {{l.a : l \in {x \in Range2(r.b) \cup Range2(r.w) : x.s \in {1, 2}}} : r \in P}) \cap HeadsOf(P)
StableModels(P) ==
    LET Q == {r \in P : Len(r.h) > 0}
        G == Guessed(P)
        D == \E r \in Q : IsDisj(r)
    IN UNION {LET X == LfpRed(Q, g, {}) IN
              IF X \cap G = g /\ Consistent(X) /\ Constraints(P, X)
                 /\ (D => \A Y \in SUBSET X : Y # X => ~ModelRed(Q, X, Y))
              THEN {X} ELSE {} : g \in SUBSET G}

-----------------------------------------------------------------------------
(* What grounding does across steps: an atom that cannot be derived when a   *)
(* rule is grounded is false in that rule for good.                          *)
MaxW(w, S) == SumSeq([i \in 1..Len(w) |-> IF w[i].s \in {1, 3} \/ w[i].a \in S THEN w[i].w ELSE 0])
Derivable(r, S) == /\ \A i \in 1..Len(r.b) : r.b[i].s # 0 \/ r.b[i].a \in S
                   /\ r.k >= 0 => MaxW(r.w, S) >= r.k
Applicable(r, S) == Derivable(r, S) /\ \A i \in 1..Len(r.b) : r.b[i].s # 2 \/ r.b[i].a \in S
RECURSIVE Possible(_, _)
Possible(P, S) ==
    LET T == S \cup UNION {IF Derivable(r, S) THEN HeadSet(r) ELSE {} : r \in P}
    IN IF T = S THEN S ELSE Possible(P, T)

SimpLit(l, S) == IF l.s = 1 /\ l.a \notin S THEN [l EXCEPT !.s = 3] ELSE l
SimpRule(r, S) ==
    [r EXCEPT !.b = SelectSeq(r.b, LAMBDA l : l.s # 1 \/ l.a \in S),
              !.w = [i \in 1..Len(r.w) |-> SimpLit(r.w[i], S)]]
Simplify(P, S) == {SimpRule(r, S) : r \in {q \in P : Applicable(q, S)}}

-----------------------------------------------------------------------------
(* Text of rules *)
Join(s, sep) == IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, s[1], SubSeq(s, 2, Len(s)))
LitText(l) == (CASE l.s = 0 -> "" [] l.s = 1 -> "not " [] OTHER -> "not not ") \o l.a
LitsText(b) == Join([i \in 1..Len(b) |-> LitText(b[i])], ", ")
HeadText(r) ==
    IF r.t = "choice"
    THEN (IF r.lo >= 0 THEN ToString(r.lo) ELSE "") \o "{" \o Join(r.h, ";") \o "}" \o (IF r.hi >= 0 THEN ToString(r.hi) ELSE "")
    ELSE Join(r.h, ";")
WText(r) == ToString(r.k) \o " #sum { " \o
    Join([i \in 1..Len(r.w) |-> ToString(r.w[i].w) \o "," \o ToString(i) \o " : " \o LitText(r.w[i])], "; ") \o " }"
BodyText(r) == LitsText(r.b) \o (IF r.k >= 0 THEN (IF r.b = <<>> THEN "" ELSE ", ") \o WText(r) ELSE "")
RuleText(r) ==
    HeadText(r) \o (IF r.b = <<>> /\ r.k < 0 THEN "" ELSE " :- " \o BodyText(r)) \o "."

-----------------------------------------------------------------------------
(* Sets and bags in emitted behaviours: compared without regard to order *)
Bag(s) == [bag |-> s]
BagOf(S) == [bag |-> SetToSeq(S)]

\* random choice (simulation only); the value is fixed by binding it with \E
One(S) == {RandomElement(S)}
=============================================================================
