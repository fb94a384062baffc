------------------------------ MODULE SymAtoms ------------------------------
(* Symbolic-atom views (C11): histories of grounding parametrised parts,     *)
(* external assignment and release, backend atoms, solving and cleanup.  The *)
(* state is the atom base: which atoms exist, which are facts or externals,  *)
(* and what propagation on the top level has decided (known after a solve).  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, CSV, IOUtils
CONSTANTS Depth, Opts
VARIABLES atoms,   \* atom text -> [fact, ext, top]; top: "?" | "t" | "f"
          known,   \* atoms whose top value the solver has seen
          sigs,    \* signatures seen so far: <<name, arity, positive>>
          insts,   \* grounded instances
          vals,    \* external -> value
          bk,
          auto,    \* cleanup happens by itself at the first change after a solve call
          dirty,   \* a solve call has been made since
          h
vars == <<atoms, known, sigs, insts, vals, bk, auto, dirty, h>>
other == <<auto>>
One(S) == {RandomElement(S)}
Bag(s) == [bag |-> s]
T == 1..3
A1(n, k) == n \o "(" \o ToString(k) \o ")"
A2(n, k) == n \o "(" \o ToString(k) \o "," \o ToString(k) \o ")"
Atom(f, e, t) == [fact |-> f, ext |-> e, top |-> t]
Fact == Atom(TRUE, FALSE, "?")
Open == Atom(FALSE, FALSE, "?")
Ext == Atom(FALSE, TRUE, "?")

Program == "#program base. {a;b}. f. -g(1). #program p(t). {p(t); -p(t,t)}. pf(t). q(t) :- p(t). r(t) :- pf(t). s(t) :- not p(t). "
           \o "m(t) :- p(t), pf(t), not -p(t,t). #program x(t). #external e(t). [free] de(t) :- e(t). nde(t) :- not e(t). "
           \o "#program k(t). :- not p(t). #program l(t). :- p(t). "
           \o "#program tt(t). {tt((t,t)); tt(\"s\",t); tt(1..t)}. "

New(i) == LET t == i[2] IN
    CASE i[1] = "base" -> ("a" :> Open @@ "b" :> Open @@ "f" :> Fact @@ "-g(1)" :> Fact)
      [] i[1] = "p" -> (A1("p", t) :> Open @@ A2("-p", t) :> Open @@ A1("pf", t) :> Fact @@ A1("q", t) :> Open @@ A1("r", t) :> Fact
                       @@ A1("s", t) :> Open @@ A1("m", t) :> Open)
      [] i[1] = "x" -> (A1("e", t) :> Ext @@ A1("de", t) :> Open @@ A1("nde", t) :> Open)
      [] i[1] = "tt" -> [x \in {"tt((" \o ToString(t) \o "," \o ToString(t) \o "))", "tt(\"s\"," \o ToString(t) \o ")"}
                               \cup {A1("tt", j) : j \in 1..t} |-> Open]
      [] OTHER -> <<>>
SigOf(i) == CASE i[1] = "base" -> {<<"a", 0, TRUE>>, <<"b", 0, TRUE>>, <<"f", 0, TRUE>>, <<"g", 1, FALSE>>}
              [] i[1] = "p" -> {<<"p", 1, TRUE>>, <<"p", 2, FALSE>>, <<"pf", 1, TRUE>>, <<"q", 1, TRUE>>, <<"r", 1, TRUE>>, <<"s", 1, TRUE>>, <<"m", 1, TRUE>>}
              [] i[1] = "x" -> {<<"e", 1, TRUE>>, <<"de", 1, TRUE>>, <<"nde", 1, TRUE>>}
              [] i[1] = "tt" -> {<<"tt", 1, TRUE>>, <<"tt", 2, TRUE>>}
              [] OTHER -> {}
\* the signature of an atom of this universe
SigAt(a) ==
    CASE a \in {"a", "b", "f"} -> <<a, 0, TRUE>>
      [] a = "-g(1)" -> <<"g", 1, FALSE>>
      [] OTHER -> CHOOSE s \in ({"p", "pf", "q", "r", "s", "m", "e", "de", "nde", "z", "w", "n", "y"} \X {1} \X {TRUE})
                               \cup {<<"p", 2, FALSE>>, <<"tt", 1, TRUE>>, <<"tt", 2, TRUE>>} :
                   \/ s[1] # "tt" /\ s[3] /\ a \in {A1(s[1], k) : k \in 1..9}
                   \/ ~s[3] /\ a \in {A2("-p", k) : k \in T}
                   \/ s = <<"tt", 2, TRUE>> /\ a \in {"tt(\"s\"," \o ToString(k) \o ")" : k \in T}
                   \/ s = <<"tt", 1, TRUE>> /\ a \in {"tt((" \o ToString(k) \o "," \o ToString(k) \o "))" : k \in T} \cup {A1("tt", k) : k \in T}
Sigs == {<<"a", 0, TRUE>>, <<"a", 0, FALSE>>, <<"a", 1, TRUE>>, <<"p", 1, TRUE>>, <<"p", 1, FALSE>>, <<"p", 2, TRUE>>, <<"p", 2, FALSE>>, <<"g", 1, FALSE>>,
         <<"pf", 1, TRUE>>, <<"e", 1, TRUE>>, <<"de", 1, TRUE>>, <<"tt", 1, TRUE>>, <<"tt", 2, TRUE>>, <<"z", 1, TRUE>>, <<"none", 3, TRUE>>}
Univ == {"a", "b", "-a", "f", "g(1)", "-g(1)", "p(1)", "p(2)", "p(3)", "-p(1,1)", "-p(1)", "p(1,1)", "e(1)", "e(2)", "de(1)", "nde(2)",
         "s(1)", "z(1)", "w(1)", "n(2)", "y(1)", "tt((1,1))", "tt(2)", "tt(\"s\",1)", "none", "none(1,2)"}

Row(a, M) == [a |-> a, fact |-> M[a].fact, ext |-> IF SigAt(a)[1] = "y" THEN [any |-> 1] ELSE M[a].ext]
Rows(S, M) == LET q == SetToSeq(S) IN Bag([i \in 1..Len(q) |-> Row(q[i], M)])
View(M, G) == [all |-> Rows(DOMAIN M, M), len |-> Cardinality(DOMAIN M), sigs |-> Bag(SetToSeq({SigAt(a) : a \in DOMAIN M})), litsok |-> TRUE,
               by |-> LET q == SetToSeq(Sigs) IN [i \in 1..Len(q) |-> [s |-> q[i], rows |-> Rows({a \in DOMAIN M : SigAt(a) = q[i]}, M)]],
               find |-> LET q == SetToSeq(Univ) IN [i \in 1..Len(q) |->
                          IF q[i] \in DOMAIN M THEN [a |-> q[i], in |-> TRUE, row |-> Row(q[i], M)] ELSE [a |-> q[i], in |-> FALSE]]]
Look(M, G) == [op |-> "satoms", by |-> SetToSeq(Sigs), find |-> SetToSeq(Univ), exp |-> View(M, G)]
\* every step is followed by a look at the views
Step(s) == h' = h \o <<s, Look(atoms', sigs')>>

Init == /\ atoms = <<>> /\ known = {} /\ sigs = {} /\ insts = {} /\ vals = <<>> /\ bk = 0 /\ auto = TRUE /\ dirty = FALSE
        /\ \E o \in Opts : h = <<[op |-> "new", args |-> <<"1", o>>],
                                [op |-> "add", part |-> "base", params |-> <<>>, text |-> Program], Look(<<>>, {})>>

SetTop(M, f) == [a \in DOMAIN M |-> IF a \in DOMAIN f THEN [M[a] EXCEPT !.top = f[a]] ELSE M[a]]
Cleaned(M) == [a \in {x \in DOMAIN M : ~(x \in known /\ M[x].top = "f")} |->
                 IF a \in known /\ M[a].top = "t" THEN [M[a] EXCEPT !.fact = TRUE] ELSE M[a]]
\* the atoms a change of the program starts from
Base == IF auto /\ dirty THEN Cleaned(atoms) ELSE atoms
Change == dirty' = FALSE /\ UNCHANGED auto
Ground ==
    \E i \in One({<<"base", 0>>} \cup ({"p", "x"} \X T) \cup ({"tt", "k", "l"} \X T)) :
    LET t == i[2]
        N == New(i)
        cand == /\ i \notin insts
                /\ i[1] \in {"k", "l"} => <<"p", t>> \in insts /\ <<"k", t>> \notin insts /\ <<"l", t>> \notin insts
                /\ i[1] = "tt" => \A j \in T : <<"tt", j>> \notin insts
    IN /\ cand /\ Change
       /\ atoms' = CASE i[1] = "k" -> SetTop(Base, A1("p", t) :> "t" @@ A1("q", t) :> "t" @@ A1("s", t) :> "f")
                     [] i[1] = "l" -> SetTop(Base, A1("p", t) :> "f" @@ A1("q", t) :> "f" @@ A1("m", t) :> "f" @@ A1("s", t) :> "t")
                     [] OTHER -> Base @@ N
       /\ sigs' = sigs \cup SigOf(i)
       /\ insts' = insts \cup {i}
       /\ vals' = IF i[1] = "x" THEN vals @@ (A1("e", t) :> "u") ELSE vals
       /\ Step([op |-> "ground", parts |-> <<[name |-> i[1], args |-> IF i[1] = "base" THEN <<>> ELSE <<ToString(t)>>]>>])
       /\ UNCHANGED <<known, bk>>
Assign == /\ DOMAIN vals # {}
          /\ atoms' = Base /\ Change /\ UNCHANGED <<known, sigs, insts, bk>>
          /\ \E a \in One(DOMAIN vals) : \E v \in One({"t", "f", "u"}) :
             /\ vals' = [vals EXCEPT ![a] = v]
             /\ Step([op |-> "assign", a |-> a, v |-> v, by |-> RandomElement({"sym", "lit"})])
Release == /\ DOMAIN vals # {}
           /\ Change /\ UNCHANGED <<known, sigs, insts, bk>>
           /\ \E t \in {t \in T : A1("e", t) \in DOMAIN vals} :
              LET e == A1("e", t) IN
              /\ vals' = [x \in DOMAIN vals \ {e} |-> vals[x]]
              /\ atoms' = LET M == SetTop(Base, e :> "f" @@ A1("de", t) :> "f" @@ A1("nde", t) :> "t") IN [M EXCEPT ![e].ext = FALSE]
              /\ Step([op |-> "release", a |-> e, by |-> RandomElement({"sym", "lit"})])
Backend ==
    /\ bk < 3 /\ Change
    /\ \E t \in {bk + 1} : \E S \in One(SUBSET {"z", "w", "n", "y"} \ {{}}) :
       /\ bk' = t
       /\ atoms' = Base @@ [a \in {A1(x, t) : x \in S} |-> IF a = A1("w", t) THEN Fact ELSE IF a = A1("n", t) THEN Atom(FALSE, FALSE, "f") ELSE Open]
       /\ sigs' = sigs \cup {<<x, 1, TRUE>> : x \in S}
       /\ Step([op |-> "backend", stmts |-> FoldLeft(LAMBDA x, y : x \o y, <<>>, SetToSeq(
            {CASE x = "z" -> <<[k |-> "rule", r |-> [t |-> "choice", h |-> <<A1("z", t)>>, b |-> <<>>, w |-> <<>>, k |-> -1]]>>
               [] x = "w" -> <<[k |-> "rule", r |-> [t |-> "disj", h |-> <<A1("w", t)>>, b |-> <<>>, w |-> <<>>, k |-> -1]]>>
               [] x = "n" -> <<[k |-> "atom", a |-> A1("n", t)]>>
               [] OTHER -> <<[k |-> "external", a |-> A1("y", t), v |-> "u"]>> : x \in S}))])
    /\ UNCHANGED <<known, insts, vals>>
Solve == /\ dirty' = TRUE /\ UNCHANGED <<atoms, sigs, insts, vals, bk, auto>>
         /\ known' = {a \in DOMAIN atoms : atoms[a].top # "?"}
         /\ Step([op |-> "agree", exp |-> [sat |-> TRUE, bad |-> <<>>]])
\* (in the middle of extending the program nothing is decided, so there is nothing to clean up)
Cleanup == /\ atoms' = IF dirty THEN Cleaned(atoms) ELSE atoms
           /\ Change /\ UNCHANGED <<known, sigs, insts, vals, bk>>
           /\ Step([op |-> "cleanup"])
Auto == /\ \E v \in One({TRUE, FALSE, FALSE}) :
           /\ auto' = v
           /\ UNCHANGED <<atoms, known, sigs, insts, vals, bk, dirty>>
           /\ Step([op |-> "autoclean", v |-> v, exp |-> [was |-> auto, now |-> v]])
Live == h[Len(h)].op # "end"
Next == \/ /\ Live /\ Len(h) <= Depth
           /\ \E k \in One(1..13) :
              \/ k \in 1..4 /\ Ground
              \/ k = 5 /\ Assign
              \/ k = 6 /\ Release
              \/ k = 7 /\ Backend
              \/ k \in 8..9 /\ Solve
              \/ k \in 10..12 /\ Cleanup
              \/ k = 13 /\ Auto
              \/ UNCHANGED vars
        \/ Live /\ Len(h) > Depth /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<atoms, known, sigs, insts, vals, bk, auto, dirty>>
\* what the views may never show
Sane == \A a \in DOMAIN atoms : SigAt(a) \in sigs /\ ~(atoms[a].fact /\ atoms[a].ext)
Emit == Live \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
