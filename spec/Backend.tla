------------------------------ MODULE Backend ------------------------------
(* Stating a program through the backend (and by grounding) and observing it *)
(* (C10): what each registered observer has to be told, step by step.        *)
(* State: the registered observers (what they handle, which of them are cut  *)
(* off by a later replacing observer), the statements of the current step,   *)
(* the atoms and theory atoms introduced so far.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Lang
VARIABLES obs,     \* sequence of [id, has, active, init]
          step,    \* [ev, any, th, out, seen]: ordered statements, unordered statements, theory atoms, output
          intro,   \* symbolic atoms that exist already
          nth,     \* number of theory atoms stated (each is made unique)
          ntxt,    \* number of text blocks
          nstep,
          cut,     \* the solver is cut off
          h
vars == <<obs, step, intro, nth, ntxt, nstep, cut, h>>
One(S) == {RandomElement(S)}
Bag(s) == [bag |-> s]
Full == Lang # "lua"
Handlers == {"init_program", "begin_step", "end_step", "rule", "weight_rule", "minimize", "project", "output_atom", "output_term", "external",
             "assume", "heuristic", "acyc_edge", "theory"}

\* atoms are defined in one step only (every step has its own); _n and _m are never derived
N1 == ToString(nstep)
Atoms == <<"a" \o N1, "b" \o N1, "c(" \o N1 \o ")", "-d" \o N1, "_x" \o N1, "_y" \o N1, "_z" \o N1>>
NA == "_n" \o N1
MA == "_m" \o N1
A(d) == Atoms[RandomElement(1..7)]
Lit(d) == (IF RandomElement(0..2) = 0 THEN "~" ELSE "") \o A(d)
Cut3(s, lo) == SubSeq(s, 1, RandomElement(lo..Len(s)))
As(d, lo) == Cut3(<<A(1), A(2), A(3)>>, lo)
Lits(d, lo) == Cut3(<<Lit(1), Lit(2), Lit(3), Lit(4)>>, lo)
WLit(d) == <<Lit(d), RandomElement((0 - 3)..9)>>
WLits(d, lo) == Cut3(<<WLit(1), WLit(2), WLit(3)>>, lo)
PLits(d, lo) == Cut3(<<<<Lit(1), RandomElement(0..4)>>, <<Lit(2), RandomElement(1..9)>>, <<Lit(3), RandomElement(1..2147483)>>>>, lo)

\* theory terms: records [t, ...] built by the driver bottom up; the text is what the observed pieces have to add up to
Num(n) == [t |-> "num", v |-> n]
RECURSIVE Text(_)
JoinC(s) == IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA p, q : p \o "," \o q, s[1], SubSeq(s, 2, Len(s)))
Text(t) == CASE t.t = "num" -> ToString(t.v)
             [] t.t = "str" -> t.v
             [] t.t = "fun" -> t.v \o "(" \o JoinC([i \in 1..Len(t.args) |-> Text(t.args[i])]) \o ")"
             [] t.t = "seq" -> t.v \o "[" \o JoinC([i \in 1..Len(t.args) |-> Text(t.args[i])]) \o "]"
             [] t.t = "sym" -> t.x
Leaf(d) == CASE RandomElement(1..5) <= 2 -> Num(RandomElement({0, 1, 7, 0 - 3, 2147483647, 0 - 2147483647}))
             [] RandomElement(1..3) = 1 -> [t |-> "sym", v |-> "g(1,\"x\")", x |-> "g(1,\"x\")"]
             [] RandomElement(1..3) = 1 -> [t |-> "sym", v |-> "h", x |-> "h"]
             [] OTHER -> [t |-> "str", v |-> RandomElement({"p", "<=", "\"q r\"", "++"})]
Term1(d) == LET l == <<Leaf(1), Leaf(2)>> n == RandomElement(0..2) IN
    CASE RandomElement(1..4) = 1 -> [t |-> "fun", v |-> RandomElement({"f", "-", "k"}), args |-> SubSeq(l, 1, n)]
      [] RandomElement(1..3) = 1 -> [t |-> "seq", v |-> RandomElement({"set", "list"}), args |-> SubSeq(l, 1, n)]
      [] OTHER -> l[1]
Term(d) == LET l == <<Term1(1), Term1(2), Leaf(3)>> n == RandomElement(0..3) IN
    CASE RandomElement(1..4) = 1 -> [t |-> "fun", v |-> RandomElement({"f", "m"}), args |-> SubSeq(l, 1, n)]
      [] RandomElement(1..4) = 1 -> [t |-> "seq", v |-> RandomElement({"set", "list"}), args |-> SubSeq(l, 1, n)]
      [] OTHER -> l[1]
Elem(i) == [terms |-> <<Num(i)>> \o Cut3(<<Term(1), Leaf(2)>>, 0), cond |-> Cut3(<<Lit(1), Lit(2)>>, 0)]
ElemObs(e) == <<[i \in 1..Len(e.terms) |-> Text(e.terms[i])], e.cond>>
\* (elements are told apart by their terms)
Elems(n) == Cut3(<<Elem(2 * n), Elem(2 * n + 1)>>, 0)
TheoryObs(st) == <<"theory", IF st.at = "" THEN "0" ELSE st.at, Text(st.name), [i \in 1..Len(st.el) |-> ElemObs(st.el[i])]>>
                 \o (IF st.op = "" THEN <<>> ELSE <<st.op, Text(st.rhs)>>)

Kinds == IF Full THEN <<"rule", "rule", "weight_rule", "minimize", "project", "external", "assume", "heuristic", "edge", "atom", "theory", "theory">>
         ELSE <<"rule", "weight_rule", "minimize", "external", "atom">>
\* (rules that leave the program satisfiable: an inconsistent program takes no more statements)
Rul(c) == CASE c \in {1, 2} -> [k |-> "rule", ch |-> TRUE, head |-> As(1, 0), body |-> Lits(1, 0)]
            [] c \in {3, 4} -> [k |-> "rule", ch |-> FALSE, head |-> As(1, 1), body |-> Lits(1, 0)]
            [] OTHER -> [k |-> "rule", ch |-> FALSE, head |-> <<>>, body |-> <<RandomElement({NA, MA})>> \o Lits(1, 0)]
Stmt(k, n) ==
    CASE k = "rule" -> Rul(RandomElement(1..5))
      [] k = "weight_rule" -> LET c == RandomElement({TRUE, FALSE}) IN
                                [k |-> k, ch |-> c, head |-> As(1, IF c THEN 0 ELSE 1), lo |-> RandomElement(0..7), body |-> PLits(1, 0)]
      [] k = "minimize" -> [k |-> k, p |-> RandomElement((0 - 2)..3), body |-> WLits(1, 0)]
      [] k = "project" -> [k |-> k, atoms |-> As(1, 0)]
      [] k = "external" -> [k |-> k, a |-> A(1), v |-> RandomElement({"t", "f", "f", "u", "r"}), dflt |-> RandomElement({TRUE, FALSE})]
      [] k = "assume" -> [k |-> k, body |-> Cut3(<<RandomElement({"~" \o NA, "~" \o MA}), "~" \o MA, "~" \o NA>>, 0)]
      [] k = "heuristic" -> [k |-> k, a |-> A(1), t |-> RandomElement({"level", "sign", "factor", "init", "true", "false"}),
                             bias |-> RandomElement((0 - 5)..5), prio |-> RandomElement(0..9), body |-> Lits(1, 0)]
      [] k = "edge" -> LET u == RandomElement(0..4) IN [k |-> k, u |-> u, v |-> RandomElement((u + 1)..6), body |-> Lits(1, 0)]
      [] k = "atom" -> [k |-> k, a |-> A(1)]
      [] OTHER -> LET g == RandomElement({TRUE, FALSE}) IN
                  [k |-> "theory", at |-> RandomElement({"", "_t" \o ToString(n), "_t" \o ToString(n)}),
                   name |-> [t |-> "fun", v |-> "n" \o ToString(n), args |-> Cut3(<<Term(1), Leaf(2)>>, 0)],
                   el |-> Elems(n), op |-> IF g THEN RandomElement({"<=", ">", "!="}) ELSE "",
                   rhs |-> IF g THEN Term(1) ELSE Num(0)]
SObs(st) ==
    CASE st.k = "rule" -> <<<<"rule", st.ch, st.head, st.body>>>>
      [] st.k = "weight_rule" -> <<<<"weight_rule", st.ch, st.head, st.lo, st.body>>>>
      [] st.k = "minimize" -> <<<<"minimize", st.p, st.body>>>>
      [] st.k = "project" -> <<<<"project", st.atoms>>>>
      [] st.k = "external" -> <<<<"external", st.a, st.v>>>>
      [] st.k = "assume" -> <<<<"assume", st.body>>>>
      [] st.k = "heuristic" -> <<<<"heuristic", st.a, st.t, st.bias, st.prio, st.body>>>>
      [] st.k = "edge" -> <<<<"acyc_edge", st.u, st.v, st.body>>>>
      [] OTHER -> <<>>
AllAtoms == Range(Atoms) \cup {NA, MA}
LitAtoms == [a \in AllAtoms \cup {"~" \o x : x \in AllAtoms} |-> CHOOSE b \in AllAtoms : a = b \/ a = "~" \o b]
LA(s) == {LitAtoms[s[i]] : i \in 1..Len(s)}
WA(s) == {LitAtoms[s[i][1]] : i \in 1..Len(s)}
Mentions(st) ==
    CASE st.k = "rule" -> Range(st.head) \cup LA(st.body)
      [] st.k = "weight_rule" -> Range(st.head) \cup WA(st.body)
      [] st.k = "minimize" -> WA(st.body)
      [] st.k = "project" -> Range(st.atoms)
      [] st.k = "external" -> {st.a}
      [] st.k = "assume" -> LA(st.body)
      [] st.k = "heuristic" -> {st.a} \cup LA(st.body)
      [] st.k = "edge" -> LA(st.body)
      [] st.k = "atom" -> {st.a}
      [] OTHER -> UNION {LA(st.el[i].cond) : i \in 1..Len(st.el)}
Syms == {Atoms[i] : i \in 1..4}
NoStep == [ev |-> <<>>, any |-> <<>>, th |-> <<>>, out |-> <<>>, begun |-> FALSE]

Block(n) == LET ks == [i \in 1..6 |-> Kinds[RandomElement(1..Len(Kinds))]]
            IN Cut3([i \in 1..6 |-> Stmt(ks[i], n + i)], 1)

(* What an observer is told about a step *)
Saw(o, st, c) ==
    IF ~o.active \/ c THEN [id |-> o.id, init |-> 0, begin |-> 0, ev |-> <<>>, any |-> Bag(<<>>), th |-> Bag(<<>>), out |-> Bag(<<>>), end |-> 0, ok |-> TRUE]
    ELSE [id |-> o.id,
          init |-> IF o.init /\ "init_program" \in o.has THEN 1 ELSE 0,
          begin |-> IF "begin_step" \in o.has THEN 1 ELSE 0,
          ev |-> SelectSeq(st.ev, LAMBDA e : e[1] \in o.has),
          any |-> Bag(SelectSeq(st.any, LAMBDA e : e[1] \in o.has)),
          th |-> Bag(IF "theory" \in o.has THEN st.th ELSE <<>>),
          out |-> Bag(SelectSeq(st.out, LAMBDA e : e[1] \in o.has)),
          end |-> IF "end_step" \in o.has THEN 1 ELSE 0,
          ok |-> TRUE]
Report(os, st) == [i \in 1..Len(os) |-> Saw(os[i], st, FALSE)]

Init == /\ obs = <<>> /\ step = NoStep /\ intro = {} /\ nth = 0 /\ ntxt = 0 /\ nstep = 0 /\ cut = FALSE
        /\ h = <<[op |-> "new", args |-> <<"0">>]>>

\* observers are registered before anything is stated in a step; a replacing one cuts off the earlier ones and the solver
Register ==
    /\ ~step.begun /\ Len(obs) < 4
    /\ \E r \in One({FALSE, FALSE, FALSE, TRUE}) : \E S \in One({Handlers, Handlers, Handlers \ {"rule", "theory"}, {"rule", "weight_rule", "end_step"},
            {"init_program", "begin_step", "output_atom", "output_term"}, {"theory", "external", "minimize", "acyc_edge"},
            Handlers \ {"minimize", "external", "heuristic", "begin_step"}, {"project", "assume", "heuristic"}}) :
       /\ obs' = Append(IF r THEN [i \in 1..Len(obs) |-> [obs[i] EXCEPT !.active = FALSE]] ELSE obs,
                        [id |-> Len(obs) + 1, has |-> S, active |-> TRUE, init |-> nstep = 0])
       /\ cut' = (cut \/ r)
       /\ h' = Append(h, [op |-> "observe", id |-> Len(obs) + 1, has |-> SetToSeq(S), replace |-> r])
       /\ UNCHANGED <<step, intro, nth, ntxt, nstep>>
State ==
    /\ Len(obs) > 0
    /\ \E b \in {Block(nth)} :
       LET ment == UNION {Mentions(b[i]) : i \in 1..Len(b)}
           newsym == {a \in Syms : a \in ment} \ intro
           fact(a) == \E i \in 1..Len(b) : b[i].k = "rule" /\ ~b[i].ch /\ b[i].head = <<a>> /\ b[i].body = <<>>
       IN /\ step' = [step EXCEPT !.ev = @ \o FoldLeft(LAMBDA x, y : x \o y, <<>>, [i \in 1..Len(b) |-> SObs(b[i])]),
                                  !.th = @ \o FoldLeft(LAMBDA x, y : x \o y, <<>>, [i \in 1..Len(b) |-> IF b[i].k = "theory" THEN <<TheoryObs(b[i])>> ELSE <<>>]),
                                  !.out = @ \o SetToSeq({<<"output_atom", a, IF fact(a) THEN [any |-> 1] ELSE a>> : a \in newsym}),
                                  !.begun = TRUE]
          /\ intro' = intro \cup newsym
          /\ nth' = nth + 6
          /\ h' = Append(h, [op |-> "state", stmts |-> b])
          /\ UNCHANGED <<obs, ntxt, nstep, cut>>

\* a block of text over atoms of its own
P(n, x) == x \o "(" \o ToString(n) \o ")"
TextBlock ==
    /\ Len(obs) > 0
    /\ \E n \in {ntxt + 1} : \E S \in One(SUBSET (1..9)) :
       LET p == P(n, "p") q == P(n, "q") r == P(n, "r") e == P(n, "e")
           on(i, x) == IF i \in S THEN x ELSE <<>>
       IN /\ ntxt' = n
          /\ step' = [step EXCEPT
               !.begun = TRUE,
               !.any = @ \o <<<<"rule", TRUE, Bag(<<p, q>>), Bag(<<>>)>>>>
                         \o on(1, <<<<"rule", FALSE, Bag(<<r>>), Bag(<<p, "~" \o q>>)>>>>)
                         \o on(2, <<<<"rule", FALSE, Bag(<<>>), Bag(<<q, "~" \o p>>)>>>>)
                         \o on(3, <<<<"external", e, "u">>>>)
                         \o on(4, <<<<"minimize", 10 + n, Bag(<<<<p, 2>>, <<"~" \o q, 3>>>>)>>>>)
                         \o on(5, <<<<"heuristic", p, "sign", 0 - 2, 5, Bag(<<"~" \o q>>)>>>>)
                         \o on(7, <<<<"project", Bag(<<q>>)>>>>),
               !.th = @ \o on(6, <<<<"theory", [any |-> 1], "ta(" \o ToString(n) \o ")",
                                     Bag(<<<<<<ToString(n), "\"s\"">>, <<p>>>>, <<<<"f(tuple[1,2])">>, <<>>>>>>), "<=", "7">>>>),
               !.out = @ \o <<<<"output_atom", p, p>>, <<"output_atom", q, q>>>>
                         \o on(1, <<<<"output_atom", r, r>>>>) \o on(3, <<<<"output_atom", e, e>>>>)
                         \o on(8, <<<<"output_term", P(n, "t"), <<"~" \o p>>>>>>)
                         \o on(9, <<<<"output_term", P(n, "u"), <<q>>>>>>)]
          /\ h' = Append(h, [op |-> "text", n |-> n,
                text |-> "{" \o p \o ";" \o q \o "}. "
                         \o (IF 1 \in S THEN r \o ":-" \o p \o ",not " \o q \o ". " ELSE "")
                         \o (IF 2 \in S THEN ":-" \o q \o ",not " \o p \o ". " ELSE "")
                         \o (IF 3 \in S THEN "#external " \o e \o ". [free] " ELSE "")
                         \o (IF 4 \in S THEN "#minimize{2@" \o ToString(10 + n) \o ",1:" \o p \o "; 3@" \o ToString(10 + n) \o ",2:not " \o q \o "}. " ELSE "")
                         \o (IF 5 \in S THEN "#heuristic " \o p \o ":not " \o q \o ". [(0-2)@5,sign] " ELSE "")
                         \o (IF 6 \in S THEN "&ta(" \o ToString(n) \o "){" \o ToString(n) \o ",\"s\":" \o p \o "; f((1,2))} <= 7. " ELSE "")
                         \o (IF 7 \in S THEN "#project " \o q \o ". " ELSE "")
                         \o (IF 8 \in S THEN "#show " \o P(n, "t") \o ":not " \o p \o ". " ELSE "")
                         \o (IF 9 \in S THEN "#show " \o P(n, "u") \o ":" \o q \o ". " ELSE "")])
          /\ UNCHANGED <<obs, intro, nth, nstep, cut>>
\* a step ends when solving; a step in which nothing happened is begun and ended all the same
Solve == /\ Len(obs) > 0 /\ step.begun /\ nstep < 4
         /\ h' = Append(h, [op |-> "stepend", exp |-> [obs |-> Report(obs, step), cut |-> IF cut THEN TRUE ELSE FALSE]])
         /\ step' = NoStep /\ nstep' = nstep + 1
         /\ obs' = [i \in 1..Len(obs) |-> [obs[i] EXCEPT !.init = FALSE]]
         /\ UNCHANGED <<intro, nth, ntxt, cut>>
Live == h[Len(h)].op # "end"
Next == \/ /\ Live /\ Len(h) <= Depth
           /\ \E k \in One(1..11) :
              \/ k \in 1..3 /\ Register
              \/ k \in 4..7 /\ State
              \/ k \in 8..9 /\ TextBlock
              \/ k \in 10..11 /\ Solve
              \/ UNCHANGED vars
        \/ Live /\ Len(h) > Depth /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<obs, step, intro, nth, ntxt, nstep, cut>>
\* never more than one observer chain is active: everything before the last replacing one is cut off
Sane == \A i, j \in 1..Len(obs) : i < j /\ obs[i].active => obs[j].active
Emit == Live \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
