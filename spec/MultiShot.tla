------------------------------ MODULE MultiShot ------------------------------
(* Multi-shot solving (C01): histories of adding parametrised program parts, *)
(* grounding them, adding rules through the backend, assigning and releasing *)
(* externals and solving under assumptions.  The state is the ground program *)
(* accumulated so far; a Solve step expects exactly its stable models.       *)
EXTENDS AspGen, Json, CSV, IOUtils, Randomization
CONSTANTS Depth,      \* number of steps of an emitted behaviour
          Modes,      \* ways to run a solve call
          Opts        \* command line options of the control (set of strings)
VARIABLES parts,      \* part name -> sequence of template items added so far
          texts,      \* parts that have been grounded (no more additions)
          insts,      \* grounded instances <<part, k>>
          P,          \* ground rules
          poss,       \* atoms that may be derivable
          ext,        \* external atom -> "t" | "f" | "u"
          released,   \* released externals
          used,       \* atoms defined or declared so far
          bk,         \* number of backend atoms used
          nsolve,
          h           \* the behaviour: steps with expected observations
vars == <<parts, texts, insts, P, poss, ext, released, used, bk, nsolve, h>>

Parts == {"base", "p1", "p2"}
HasParam(n) == n # "base"

-----------------------------------------------------------------------------
(* Templates: an atom is [n |-> name, o |-> offset]; offset 9: no argument *)
TText(x) == IF x.o = 9 THEN x.n ELSE x.n \o "(t" \o (IF x.o = 0 THEN "" ELSE ToString(x.o)) \o ")"
GText(x, k) == IF x.o = 9 THEN x.n ELSE x.n \o "(" \o ToString(k + x.o) \o ")"
TA(n, o) == [n |-> n, o |-> o]
MapLits(b, F(_)) == [i \in 1..Len(b) |-> [b[i] EXCEPT !.a = F(b[i].a)]]
MapRule(r, F(_)) == [r EXCEPT !.h = [i \in 1..Len(r.h) |-> F(r.h[i])], !.b = MapLits(r.b, F), !.w = MapLits(r.w, F)]
Inst(r, k) == MapRule(r, LAMBDA x : GText(x, k))
TRule(r) == MapRule(r, TText)

\* an item of a part: a rule, or an external declaration [x |-> atom, v |-> value]
IsExt(it) == "x" \in DOMAIN it
ExtName(v) == CASE v = "t" -> "true" [] v = "f" -> "false" [] OTHER -> "free"
ItemText(it) == IF IsExt(it) THEN "#external " \o TText(it.x) \o ". [" \o ExtName(it.v) \o "]" ELSE RuleText(TRule(it))

HeadAtoms(n) == CASE n = "base" -> {TA("a", 9), TA("b", 9), TA("c", 9), TA("-a", 9)}
                  [] n = "p1" -> {TA("p", 0), TA("q", 0)}
                  [] n = "p2" -> {TA("r", 0)}
BodyAtoms(n) == CASE n = "base" -> {TA("a", 9), TA("b", 9), TA("c", 9), TA("e", 9), TA("-a", 9)}
                  [] n = "p1" -> {TA("a", 9), TA("e", 9), TA("p", 0), TA("q", 0), TA("p", -1), TA("q", -1), TA("g", 0)}
                  [] n = "p2" -> {TA("b", 9), TA("p", 0), TA("r", -1), TA("r", 0), TA("g", 0), TA("q", 0)}
ExtAtoms(n) == CASE n = "base" -> {TA("e", 9)} [] n = "p1" -> {TA("g", 0)} [] OTHER -> {}

-----------------------------------------------------------------------------
Init == /\ parts = [n \in Parts |-> <<>>] /\ texts = {} /\ insts = {}
        /\ P = {} /\ poss = {} /\ ext = <<>> /\ released = {} /\ used = {} /\ bk = 0 /\ nsolve = 0
        /\ \E o \in Opts : h = <<[op |-> "new", args |-> <<"0", o>>]>>

Step(s) == h' = Append(h, s)

RandomItem(n, x) == IF ExtAtoms(n) # {} /\ RandomElement(1..4) = 1
                    THEN [x |-> RandomElement(ExtAtoms(n)), v |-> RandomElement({"t", "f", "u"})]
                    ELSE RandomRule(HeadAtoms(n), BodyAtoms(n), x)
NumExt(s) == Cardinality({i \in 1..Len(s) : IsExt(s[i])})
Add == \E n \in One(Parts \ texts) :
       \E its \in {SubSeq(<<RandomItem(n, h), RandomItem(n, h), RandomItem(n, h), RandomItem(n, h)>>, 1, RandomElement(1..4))} :
       /\ Len(parts[n]) < 4
       /\ NumExt(parts[n] \o its) <= 1
       /\ parts' = [parts EXCEPT ![n] = @ \o its]
       /\ Step([op |-> "add", part |-> n, params |-> IF HasParam(n) THEN <<"t">> ELSE <<>>,
                text |-> Join([i \in 1..Len(its) |-> ItemText(its[i])], "\n"), form |-> RandomElement({"full", "short"})])
       /\ UNCHANGED <<texts, insts, P, poss, ext, released, used, bk, nsolve>>

Rules(i) == {Inst(it, i[2]) : it \in {x \in Range2(parts[i[1]]) : ~IsExt(x)}}
Exts(i) == {[a |-> GText(it.x, i[2]), v |-> it.v] : it \in {x \in Range2(parts[i[1]]) : IsExt(x)}}
Candidates == {i \in ((Parts \ {"base"}) \X (1..3)) : i \notin insts} \cup ({<<"base", 0>>} \ insts)

Ground ==
    \E I \in {RandomSubset(IF RandomElement(1..3) = 1 /\ Cardinality(Candidates) > 1 THEN 2 ELSE 1, Candidates)} :
    LET R == UNION {Rules(i) : i \in I}
        E == UNION {Exts(i) : i \in I}
        EA == {x.a : x \in E}
        S == Possible(R, poss \cup EA)
    IN /\ \A i \in I : parts[i[1]] # <<>> \/ i[1] = "base"
       /\ HeadsOf(R) \cap used = {} /\ EA \cap used = {}
       /\ insts' = insts \cup I
       /\ texts' = texts \cup {i[1] : i \in I}
       /\ poss' = S
       /\ P' = P \cup Simplify(R, S)
       /\ ext' = ext @@ [a \in EA |-> (CHOOSE x \in E : x.a = a).v]
       /\ used' = used \cup HeadsOf(R) \cup EA
       /\ Step([op |-> "ground", form |-> RandomElement({"full", "short"}),
                parts |-> SetToSeq({[name |-> i[1], args |-> IF HasParam(i[1]) THEN <<ToString(i[2])>> ELSE <<>>] : i \in I})])
       /\ UNCHANGED <<parts, released, bk, nsolve>>

ExtVals == {"t", "f", "u"}
Known == poss \cup DOMAIN ext
Assign ==
    insts # {} /\ \E a \in One(IF DOMAIN ext # {} /\ RandomElement(1..5) # 1 THEN DOMAIN ext ELSE DOMAIN ext \cup {"nope"}) : \E v \in One(ExtVals) :
    /\ ext' = IF a \in DOMAIN ext THEN [ext EXCEPT ![a] = v] ELSE ext
    /\ Step([op |-> "assign", a |-> a, v |-> v, by |-> RandomElement({"sym", "lit"})])
    /\ UNCHANGED <<parts, texts, insts, P, poss, released, used, bk, nsolve>>

Release ==
    /\ DOMAIN ext # {}
    /\ \E a \in One(DOMAIN ext) :
       /\ ext' = [x \in DOMAIN ext \ {a} |-> ext[x]]
       /\ released' = released \cup {a}
       /\ poss' = poss
       /\ Step([op |-> "release", a |-> a, by |-> RandomElement({"sym", "lit"})])
    /\ UNCHANGED <<parts, texts, insts, P, used, bk, nsolve>>

\* rules through the backend: heads are fresh atoms (with a symbol or without)
Backend ==
    /\ bk < 4 /\ h[Len(h)].op # "backend"
    /\ \E n \in One(1..2) :
       LET Z == {IF (bk + i) % 2 = 0 THEN "z(" \o ToString(bk + i) \o ")" ELSE "_" \o ToString(bk + i) : i \in 1..n}
           KB == (poss \ released) \cup Z
       IN \E R \in {{RandomRule(Z, KB, h), RandomRule(Z, KB, h)}} :
          \E x \in One({"none", "ext"}) :
          LET ea == "y(" \o ToString(bk) \o ")"
              R1 == {[r EXCEPT !.lo = -1, !.hi = -1,
                               !.b = SelectSeq(r.b, LAMBDA l : r.k < 0 /\ l.s # 2)] : r \in R}
          IN
          /\ \A r \in R1 : r.h # <<>> \/ r.b # <<>>
          /\ bk' = bk + n
          /\ P' = P \cup R1
          /\ poss' = poss \cup Z \cup (IF x = "ext" THEN {ea} ELSE {})
          /\ used' = used \cup Z
          /\ ext' = IF x = "ext" THEN ext @@ (ea :> "u") ELSE ext
          /\ Step([op |-> "backend",
                   stmts |-> (IF x = "ext" THEN <<[k |-> "external", a |-> ea, v |-> "u"]>> ELSE <<>>)
                             \o SetToSeq({[k |-> "atom", a |-> z] : z \in Z})
                             \o SetToSeq({[k |-> "rule", r |-> r] : r \in R1})])
    /\ UNCHANGED <<parts, texts, insts, released, nsolve>>

ExtRules == {IF ext[a] = "t" THEN Rule(<<a>>, <<>>) ELSE Choice(<<a>>, <<>>) :
                a \in {x \in DOMAIN ext : ext[x] # "f"}}
Visible(a) == SubSeq(a, 1, 1) # "_"
Assumptions == {[a |-> a, s |-> s] : a \in Known \cup {"nope"}, s \in BOOLEAN}
Accept(X, A) == \A i \in 1..Len(A) : (A[i].a \in X) = A[i].s

Solve ==
    /\ insts # {} /\ Cardinality(Guessed(P \cup ExtRules)) <= 9
    /\ \E m \in One(Modes) :
       \E A \in {SubSeq(<<RandomElement(Assumptions), RandomElement(Assumptions)>>, 1, RandomElement({0, 0, 1, 2}))} :
       \E by \in One({"sym", "lit"}) :
       /\ \A i \in 1..Len(A) : Visible(A[i].a) \/ by = "lit"
       /\ \E SM \in {SetToSeq({X \in StableModels(P \cup ExtRules) : Accept(X, A)})} :
          Step([op |-> "solve", mode |-> m, by |-> by, ass |-> A, want |-> <<"atoms">>,
                exp |-> [sat |-> SM # <<>>, unsat |-> SM = <<>>, exh |-> TRUE, int |-> FALSE,
                         models |-> Bag([i \in 1..Len(SM) |-> [atoms |-> BagOf({a \in SM[i] : Visible(a)})]])]])
    /\ nsolve' = nsolve + 1
    /\ UNCHANGED <<parts, texts, insts, P, poss, ext, released, used, bk>>

Cleanup == /\ Step([op |-> "cleanup"]) /\ insts # {}
           /\ h[Len(h)].op # "cleanup"
           /\ UNCHANGED <<parts, texts, insts, P, poss, ext, released, used, bk, nsolve>>

Done == (Len(h) > Depth \/ nsolve = 4) /\ h[Len(h)].op # "end" /\ Step([op |-> "end"])
        /\ UNCHANGED <<parts, texts, insts, P, poss, ext, released, used, bk, nsolve>>
Next == \/ /\ Len(h) <= Depth /\ nsolve < 4
           /\ \E k \in One(1..14) :
              \/ k \in 1..3 /\ Add
              \/ k \in 4..6 /\ Ground
              \/ k \in 7..8 /\ Assign
              \/ k = 9 /\ Release
              \/ k = 10 /\ Backend
              \/ k \in 11..13 /\ Solve
              \/ k = 14 /\ Cleanup
              \/ UNCHANGED vars
        \/ Done

Emit == h[Len(h)].op # "end" \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
