------------------------------- MODULE Models -------------------------------
(* What a model object says (C02), optimisation and reasoning modes (C03),   *)
(* and clauses added during enumeration (C04).                               *)
EXTENDS AspGen, Json, CSV, IOUtils
CONSTANTS Focus,    \* "C02" | "C03" | "C04"
          Modes,    \* ways to run a solve call
          Opts
VARIABLES P, shows, mins, proj, stage, h
vars == <<P, shows, mins, proj, stage, h>>

Atoms == {"a", "b", "c", "-a", "p(1)", "p(2)", "f(a,2)"}
Sig(x) == CASE x \in {"a", "b", "c"} -> x \o "/0" [] x = "-a" -> "-a/0" [] x \in {"p(1)", "p(2)", "p(3)"} -> "p/1" [] x = "f(a,2)" -> "f/2" [] OTHER -> "none"
Sigs == {"a/0", "b/0", "-a/0", "p/1", "f/2"}
Terms == {"t", "t(1)", "\"s\"", "7", "(1,a)"}

\* show statements: [hide |-> BOOLEAN, sigs |-> set of signatures, terms |-> set of [t, b]]
RSub(S, x) == LET q == SetToSeq(S) IN {q[i] : i \in {j \in 1..Len(q) : RandomElement(1..3) = 1}}
RandomShows(x) == [hide |-> RandomElement({TRUE, FALSE, FALSE}),
                   sigs |-> IF RandomElement(1..2) = 1 THEN {} ELSE RSub(Sigs, x),
                   terms |-> IF RandomElement(1..2) = 1 THEN {}
                             ELSE {[t |-> y, b |-> RLits(Atoms, 1, 2)] : y \in RSub(Terms, x)}]
ShowText(s) == (IF s.hide THEN "#show.\n" ELSE "")
               \o Join(SetToSeq({"#show " \o g \o "." : g \in s.sigs}), "\n") \o "\n"
               \o Join(SetToSeq({"#show " \o y.t \o " : " \o LitsText(y.b) \o "." : y \in s.terms}), "\n")
Shown(X) == IF shows.hide \/ shows.sigs # {} THEN {a \in X : Sig(a) \in shows.sigs} ELSE X
TermsOf(X) == {y.t : y \in {z \in shows.terms : \A i \in 1..Len(z.b) : Holds(z.b[i], X)}}

\* minimize statements: [p |-> priority, w |-> sequence of weighted literals, form]
RMin(x) == [p |-> RandomElement({0, 1, 2, -1}), w |-> SubSeq(<<[RWLit(x) EXCEPT !.w = RandomElement({-2, -1, 1, 2, 3})],
                                                       [RWLit(x) EXCEPT !.w = RandomElement({-2, 1, 5})],
                                                       [RWLit(x) EXCEPT !.w = RandomElement({1, 1, 2})]>>, 1, RandomElement(1..3)),
            form |-> RandomElement({"minimize", "maximize", "weak"})]
Eff(m) == IF m.form = "maximize" THEN [m EXCEPT !.w = [i \in 1..Len(m.w) |-> [m.w[i] EXCEPT !.w = -m.w[i].w]]] ELSE m
MinText(m, k) ==
    IF m.form = "weak"
    THEN Join([i \in 1..Len(m.w) |-> ":~ " \o LitText(m.w[i]) \o ". [" \o ToString(m.w[i].w) \o "@" \o ToString(m.p) \o "," \o ToString(k) \o "," \o ToString(i) \o "]"], " ")
    ELSE "#" \o m.form \o " { " \o Join([i \in 1..Len(m.w) |-> ToString(m.w[i].w) \o "@" \o ToString(m.p) \o "," \o ToString(k) \o "," \o ToString(i) \o " : " \o LitText(m.w[i])], "; ") \o " }."
SortDown(S) == SetToSortSeq(S, LAMBDA x, y : x > y)
Prios == SortDown({mins[i].p : i \in 1..Len(mins)})
Cost(X) == [j \in 1..Len(Prios) |-> SumSeq([i \in 1..Len(mins) |-> IF mins[i].p = Prios[j] THEN SumW(Eff(mins[i]).w, X) ELSE 0])]
LexLess(u, v) == \E i \in 1..Len(u) : u[i] < v[i] /\ \A j \in 1..i-1 : u[j] = v[j]
Optimal(S) == {X \in S : ~\E Y \in S : LexLess(Cost(Y), Cost(X))}

-----------------------------------------------------------------------------
Poss == Possible(P, {})
NoShow == [hide |-> FALSE, sigs |-> {}, terms |-> {}]
Init == P = {} /\ shows = NoShow /\ mins = <<>> /\ proj = {} /\ stage = 0 /\ h = <<>>
Good(Q, S) == /\ \A r \in Simplify(Q, S) : r.t # "choice" /\ Len(r.h) = 1 => Len(r.b) > 0
              \* a double negation over an underivable atom makes the grounder's answer depend on its order
              /\ \A r \in Q : Derivable(r, S) => Applicable(r, S)
              /\ Cardinality(Guessed(Q)) <= 7
\* draw a program until it has no facts (so that grounding decides nothing but possibility)
Draw == \E n \in One(2..5) : \E R \in {{RandomRule(Atoms, Atoms, n + i) : i \in 1..n}} :
        \E Q \in {R \cup {Choice(<<"a">>, <<>>), Choice(Dedup(<<RandomElement(Atoms), RandomElement(Atoms)>>), <<>>)}} :
        \E S \in {Possible(Q, {})} :
        IF Good(Q, S)
        THEN /\ P' = Q /\ stage' = 1
             /\ \E s \in {RandomShows(Q)} : shows' = (IF Focus = "C02" THEN s ELSE NoShow)
             /\ \E m \in {SubSeq(<<RMin(S), RMin(S), RMin(S)>>, 1, RandomElement(1..3))} : mins' = (IF Focus = "C03" THEN m ELSE <<>>)
             /\ \E q \in {RSub(S, Q)} : proj' = (IF Focus = "C03" THEN q ELSE {})
             /\ UNCHANGED h
        ELSE UNCHANGED vars

Text == Join(SetToSeq({RuleText(r) : r \in P}), "\n") \o "\n" \o ShowText(shows) \o "\n"
New(args, extra) == <<[op |-> "new", args |-> args], [op |-> "add", part |-> "base", params |-> <<>>, text |-> Text \o extra],
                      [op |-> "ground", parts |-> <<[name |-> "base", args |-> <<>>]>>]>>
SM == StableModels(Simplify(P, Poss))
Numbers(n) == [i \in 1..n |-> i]

-----------------------------------------------------------------------------
(* C02 *)
ModelExp(X, E) ==
    LET TS == TermsOf(X) IN
    [atoms |-> BagOf(X), shown |-> BagOf(Shown(X) \cup TS), terms |-> BagOf(TS), theory |-> BagOf(E),
     atomsterms |-> BagOf(X \cup TS), shownterms |-> BagOf(Shown(X) \cup TS), every |-> BagOf(X \cup TS \cup E), none |-> BagOf({}),
     catoms |-> BagOf(Poss \ X), cterms |-> BagOf({y.t : y \in {z \in shows.terms : Applicable(Rule(<<>>, z.b), Poss)}} \ TS),
     cshown |-> BagOf(({a \in Poss \ X : shows.hide \/ shows.sigs # {} => Sig(a) \in shows.sigs})
                      \cup ({y.t : y \in {z \in shows.terms : Applicable(Rule(<<>>, z.b), Poss)}} \ TS)),
     contains |-> BagOf(X), istrue |-> BagOf(X), isfalse |-> TRUE,
     type |-> "stable", str |-> BagOf(Shown(X) \cup TS), cost |-> <<>>, threadok |-> TRUE]
Want02 == <<"atoms", "shown", "terms", "theory", "atomsterms", "shownterms", "every", "none", "catoms", "cterms", "cshown", "contains", "istrue", "isfalse",
            "type", "str", "cost", "threadok">>
ExtChoices == {{}, {"x"}, {"t(9)", "u"}, {"\"q\"", "x"}}
Solve02(S) ==
    \E m \in One(Modes) : \E E \in One(ExtChoices) :
    h' = Append(h, [op |-> "models", mode |-> m, want |-> Want02, extend |-> SetToSeq(E), univ |-> SetToSeq(Atoms \cup {"nope", "p(9)"}),
                    exp |-> [models |-> BagOf({ModelExp(X, E) : X \in S}), numbers |-> Numbers(Cardinality(S)), sat |-> S # {}, exh |-> TRUE]])

(* C03 *)
Args03 == {"opt", "optN", "enum", "ignore", "brave", "cautious", "project", "projshow", "dom"}
MinTexts == Join([i \in 1..Len(mins) |-> MinText(mins[i], i)], "\n")
ProjText == Join(SetToSeq({"#project " \o a \o " : " \o a \o "." : a \in proj}), "\n")
CostedExp(X) == [atoms |-> BagOf(X), cost |-> Cost(X)]
Case03(k, S) ==
    LET O == Optimal(S)
        n == Cardinality(S)
        op(f, e) == [op |-> "models", mode |-> f, want |-> <<"atoms", "cost", "proven", "type">>, extend |-> <<>>, univ |-> <<>>, exp |-> e]
        each(Y, pr) == [oneof |-> SetToSeq({[atoms |-> BagOf(X), cost |-> Cost(X), type |-> "stable"] : X \in Y})]
        MS == {"cb", "yield", "async", "ayield", "yieldcb", "yieldloop"} \cap Modes
    IN CASE k = "opt" ->
              [args |-> <<"0">>, text |-> MinTexts, step |->
               op(RandomElement(MS), [sat |-> S # {}, exh |-> TRUE,
                    models |-> IF S = {} THEN <<>>
                               ELSE [m_all |-> <<[m_each |-> each(S, FALSE)],
                                               [m_lexdown |-> "cost"],
                                               [m_init |-> [proven |-> FALSE]],
                                               [m_last |-> [oneof |-> SetToSeq({CostedExp(X) : X \in O})]]>>]])]
         [] k = "optN" ->
              [args |-> <<"0", "--opt-mode=optN">>, text |-> MinTexts, step |->
               op(RandomElement(MS), [sat |-> S # {}, exh |-> TRUE,
                    models |-> [m_all |-> <<[m_each |-> each(S, FALSE)],
                                          [m_filter |-> [proven |-> TRUE],
                                           rest |-> BagOf({[atoms |-> BagOf(X), cost |-> Cost(X), type |-> "stable", proven |-> TRUE] : X \in O})]>>]])]
         [] k \in {"enum", "ignore"} ->
              [args |-> <<"0", "--opt-mode=" \o k>>, text |-> MinTexts, step |->
               op(RandomElement(MS), [sat |-> S # {}, exh |-> TRUE,
                    models |-> BagOf({[atoms |-> BagOf(X), type |-> "stable", proven |-> FALSE,
                                       cost |-> IF k = "enum" THEN Cost(X) ELSE <<>>] : X \in S})])]
         [] k \in {"brave", "cautious"} ->
              LET C == IF k = "brave" THEN UNION S ELSE IF S = {} THEN {} ELSE {x \in UNION S : \A X \in S : x \in X}
                  nin == {IF k = "brave" THEN X \subseteq C ELSE C \subseteq X : X \in S}
              IN
              [args |-> <<"0", "--enum-mode=" \o k>>, text |-> "", step |->
               op(RandomElement(MS), [sat |-> S # {}, exh |-> TRUE,
                    models |-> IF S = {} THEN <<>>
                               ELSE [m_all |-> <<[m_each |-> [type |-> k, cost |-> <<>>]], [m_last |-> [atoms |-> BagOf(C)]],
                                               [m_monotone |-> "atoms", dir |-> IF k = "brave" THEN "up" ELSE "down"]>>]])]
         [] k = "project" ->
              [args |-> <<"0", "--project=project">>, text |-> ProjText \o (IF proj = {} THEN " #project nope/0." ELSE ""), step |->
               op(RandomElement(MS), [sat |-> S # {}, exh |-> TRUE,
                    models |-> [m_project |-> SetToSeq(proj), as |-> BagOf({BagOf(X \cap proj) : X \in S}),
                                m_each |-> [oneof |-> SetToSeq({[atoms |-> BagOf(X)] : X \in S})]]])]
         [] k = "projshow" ->
              [args |-> <<"0", "--project=show">>, text |-> Join(SetToSeq({"#show " \o a \o " : " \o a \o "." : a \in proj}), "\n") \o " #show.", step |->
               op(RandomElement(MS), [sat |-> S # {}, exh |-> TRUE,
                    models |-> [m_project |-> SetToSeq(proj), as |-> BagOf({BagOf(X \cap proj) : X \in S}),
                                m_each |-> [oneof |-> SetToSeq({[atoms |-> BagOf(X)] : X \in S})]]])]
         [] k = "dom" ->
              [args |-> <<"0", "--enum-mode=domRec", "--heuristic=Domain", "--dom-mod=5,16">>, text |-> "", step |->
               op(RandomElement(MS), [sat |-> S # {}, exh |-> TRUE,
                    models |-> [m_each |-> [oneof |-> SetToSeq({[atoms |-> BagOf(X), type |-> "stable"] : X \in S})]]])]
Solve03(S) == \E k \in One(Args03) : \E o \in One(Opts) : \E c \in {Case03(k, S)} :
    h' = New(c.args \o <<o>>, c.text) \o <<c.step>>

(* C04: policies for adding clauses from models *)
LitTrue(l, X) == (l.a \in X) = l.s
ClauseHolds(C, X) == \E i \in 1..Len(C) : LitTrue(C[i], X)
RA(x) == IF RandomElement(1..4) = 1 THEN RandomElement({"nope", "p(9)", "-p(1)"} \ Poss) ELSE RandomElement(Poss)
RC(x) == SubSeq([i \in 1..4 |-> [a |-> RA(i), s |-> RandomElement(BOOLEAN)]], 1, RandomElement(1..4))
Fixed(S, C) == IF S = {} THEN <<>> ELSE
    [oneof |-> SetToSeq({[m_all |-> <<[m_first |-> [atoms |-> BagOf(X)]],
                                        [m_restof |-> BagOf({[atoms |-> BagOf(Z)] : Z \in {Y \in S : Y # X /\ ClauseHolds(C, Y)}})]>>] : X \in S})]
Solve04(S) ==
    LET MS == Modes
        plain == [op |-> "models", mode |-> RandomElement(MS), want |-> <<"atoms">>, extend |-> <<>>, univ |-> <<>>,
                  exp |-> [models |-> BagOf({[atoms |-> BagOf(X)] : X \in S}), sat |-> S # {}, exh |-> TRUE]]
    IN \E pol \in One({"fixed", "fixedng", "block", "none"}) : \E m \in One(MS) : \E by \in One({"sym", "lit"}) :
       \E C \in {RC(h)} : \E q \in {RSub(Poss, h)} :
       h' = h \o <<IF pol \in {"fixed", "fixedng"}
                  THEN [op |-> "models", mode |-> m, want |-> <<"atoms">>, extend |-> <<>>, univ |-> <<>>, by |-> by,
                        policy |-> pol,
                        \* a nogood forbids its literals together: give the complement of the clause
                        clause |-> IF pol = "fixed" THEN C ELSE [i \in 1..Len(C) |-> [C[i] EXCEPT !.s = ~C[i].s]],
                        exp |-> [models |-> Fixed(S, C), sat |-> S # {}, exh |-> TRUE]]
                  ELSE IF pol = "block"
                  THEN [op |-> "models", mode |-> m, want |-> <<"atoms">>, extend |-> <<>>, univ |-> <<>>, by |-> by,
                        policy |-> "block", over |-> SetToSeq(q),
                        exp |-> [models |-> [m_project |-> SetToSeq(q), as |-> BagOf({BagOf(X \cap q) : X \in S}),
                                             m_each |-> [oneof |-> SetToSeq({[atoms |-> BagOf(X)] : X \in S})]],
                                 sat |-> S # {}, exh |-> TRUE]]
                  ELSE plain, plain>>

Next ==
    \/ stage = 0 /\ Draw
    \/ /\ stage = 1 /\ stage' = 2
       /\ \E o \in One(Opts) : h' = New(<<"0", o>>, "")
       /\ UNCHANGED <<P, shows, mins, proj>>
    \/ /\ stage \in 2..4 /\ stage' = stage + 1
       /\ \E S \in {SM} : IF Cardinality(S) > 24 THEN UNCHANGED h
                          ELSE (CASE Focus = "C02" -> Solve02(S) [] Focus = "C03" -> Solve03(S) [] OTHER -> Solve04(S))
       /\ UNCHANGED <<P, shows, mins, proj>>
    \/ /\ stage = 5 /\ stage' = 6 /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<P, shows, mins, proj>>
    \/ stage = 6 /\ UNCHANGED vars
Emit == stage # 6 \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
