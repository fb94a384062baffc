------------------------------ MODULE External ------------------------------
(***************************************************************************)
(* Functions called from programs (C19).  A call in a rule goes to the      *)
(* context given for this grounding, if there is one; otherwise to the      *)
(* function some executed script defines; without any there is no value.    *)
(* The values a function returns - one, several, none - are the values of   *)
(* the call.  Scripts run in program order when their text is added.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth
VARIABLES h, n, defs, prog, dom, atoms, sid
vars == <<h, n, defs, prog, dom, atoms, sid>>
One(S) == {RandomElement(S)}

Terms == {"1", "-3", "0", "2147483647", "a", "-a", "\"x y\"", "\"\"", "f(a,1)", "-g(2)", "(1,2)", "()", "(a,)", "#inf", "#sup", "f(\"q\\\"\\n\",(b,(1,)))", "x_1'"}
Funs == {"f", "g", "hh", "f_1", "k'"} \ (IF Lang = "cc" THEN {} ELSE {"k'"})
Langs == CASE Lang = "py" -> {"python", "va", "vb"} [] Lang = "lua" -> {"lua"} [] OTHER -> {}
\* what a function computes, and the shape of what it returns
Kinds == {"first", "all", "rev", "none", "tup", "wrap", "cnt", "cst", "dup", "last"}
Join(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "", s)
Value(k, a) ==
    CASE k = "first" -> IF a = <<>> THEN {} ELSE {a[1]}
      [] k = "last" -> IF a = <<>> THEN {} ELSE {a[Len(a)]}
      [] k \in {"all", "rev"} -> {a[i] : i \in 1..Len(a)}
      [] k = "none" -> {}
      [] k = "tup" -> {IF Len(a) = 1 THEN "(" \o a[1] \o ",)" ELSE "(" \o Join(a) \o ")"}
      [] k = "wrap" -> {IF a = <<>> THEN "r" ELSE "r(" \o Join(a) \o ")"}
      [] k = "cnt" -> {ToString(Len(a))}
      [] k = "cst" -> {"\"a b\""}
      [] OTHER -> (IF a = <<>> THEN {} ELSE {a[1]}) \cup {"7"}

\* a name is defined by at most one language
Owner(f) == CASE Lang # "py" -> (IF Langs = {} THEN "none" ELSE "lua") [] f = "f" -> "python" [] f = "g" -> "va" [] f = "hh" -> "vb" [] OTHER -> "python"
Nothing == [f \in Funs |-> "undef"]
NewCtx(u) == FoldLeft(LAMBDA c, f : [c EXCEPT ![f] = RandomElement(Kinds)], [f \in Funs |-> "first"], SetToSeq(Funs))

\* rules: head(@f(args)) :- d(X).   arguments: constants, X, the parameter t, pools, nested calls
Arg(u) == LET k == RandomElement(1..10) IN
          CASE k <= 4 -> [k |-> "c", s |-> RandomElement(Terms)]
            [] k <= 6 -> [k |-> "X"]
            [] k = 7 -> [k |-> "t"]
            [] k = 8 -> [k |-> "p", e |-> <<RandomElement(Terms), RandomElement(Terms)>>]
            [] OTHER -> [k |-> "n", f |-> RandomElement(Funs), s |-> RandomElement(Terms)]
Args(u) == LET m == RandomElement(0..4) IN
           CASE m = 0 -> <<>> [] m = 1 -> <<Arg(u)>> [] m = 2 -> <<Arg(u), Arg(u)>> [] m = 3 -> <<Arg(u), Arg(u), Arg(u)>>
             [] OTHER -> LET x == Arg(u) IN [i \in 1..30 |-> IF i = 17 THEN x ELSE [k |-> "c", s |-> ToString(i)]]
Rule(u) == [h |-> RandomElement({"p1", "p2", "p3"}), f |-> RandomElement(Funs), args |-> Args(u), body |-> RandomElement({"head", "eq"})]
Scr(m, i) == LET f == RandomElement(Funs) IN [lang |-> Owner(f), f |-> f, kind |-> RandomElement(Kinds), id |-> sid + i, at |-> RandomElement(0..m)]
RECURSIVE Rules(_)
Rules(m) == IF m = 0 THEN <<>> ELSE Append(Rules(m - 1), Rule(m))

\* the values of an argument, and the calls made for it
ArgV(x, X, t, F) == CASE x.k = "c" -> {x.s} [] x.k = "X" -> {X} [] x.k = "t" -> {t} [] x.k = "p" -> {x.e[1], x.e[2]}
                      [] OTHER -> IF F[x.f] = "undef" THEN {} ELSE Value(F[x.f], <<x.s>>)
ArgC(x, F) == IF x.k = "n" /\ F[x.f] # "undef" THEN {[f |-> x.f, a |-> <<x.s>>]} ELSE {}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in s[1], y \in Prod(Tail(s))}
UsesX(r) == \E i \in 1..Len(r.args) : r.args[i].k = "X"
Xs(r) == IF UsesX(r) THEN dom ELSE {"none"}
CallArgs(r, t, F) == UNION {Prod([i \in 1..Len(r.args) |-> ArgV(r.args[i], X, t, F)]) : X \in Xs(r)}
Outer(r, t, F) == IF F[r.f] = "undef" THEN {} ELSE {[f |-> r.f, a |-> a] : a \in CallArgs(r, t, F)}
\* nested calls need not happen when there are no values to combine them with
Inner(r, t, F) == UNION {ArgC(r.args[i], F) : i \in 1..Len(r.args)}
Atoms(r, t, F) == IF F[r.f] = "undef" THEN {} ELSE {r.h \o "(" \o v \o ")" : v \in UNION {Value(F[r.f], a) : a \in CallArgs(r, t, F)}}

\* a new part - of rules with scripts between them
Add == \E par \in One({TRUE, FALSE}) : \E m \in One(1..4) : \E rs \in {Rules(m)} : \E k \in One(0..2) :
       \E sc \in {IF Langs = {} \/ k = 0 THEN <<>> ELSE IF k = 1 THEN <<Scr(m, 1)>> ELSE <<Scr(m, 1), Scr(m, 2)>>} :
       LET scs == IF Len(sc) = 2 /\ sc[1].at > sc[2].at THEN <<sc[2], sc[1]>> ELSE sc
           nm == "part" \o ToString(sid) IN
       /\ h' = Append(h, [op |-> "x_add", part |-> nm, par |-> par, rules |-> rs, scripts |-> scs, exp |-> [i \in 1..Len(scs) |-> scs[i].id]])
       /\ defs' = FoldLeft(LAMBDA d, x : [d EXCEPT ![x.f] = x.kind], defs, scs)
       /\ prog' = Append(prog, [name |-> nm, par |-> par, rules |-> rs]) /\ sid' = sid + 2
       /\ UNCHANGED <<dom, atoms>>
Strs(cs) == {x.f \o "(" \o Join(x.a) \o ")" : x \in cs}
\* pending parts are ground, one or two at a time, in any order
Ground == /\ prog # <<>>
          /\ \E i1 \in One(1..Len(prog)) : \E i2 \in One(1..Len(prog)) : \E t1 \in One(Terms) : \E t2 \in One(Terms) :
             \E wc \in One({TRUE, FALSE}) : \E c \in {NewCtx(n)} : \E sty \in One({"object", "falsy"}) :
             LET F == IF wc THEN c ELSE IF Lang = "cc" THEN Nothing ELSE defs
                 is == IF i1 = i2 THEN <<i1>> ELSE <<i1, i2>>
                 ts == <<t1, t2>>
                 T(j) == IF prog[is[j]].par THEN ts[j] ELSE "t"
                 On(Op(_, _, _)) == UNION {UNION {Op(prog[is[j]].rules[i], T(j), F) : i \in 1..Len(prog[is[j]].rules)} : j \in 1..Len(is)}
             IN /\ atoms' = atoms \cup On(Atoms)
                /\ h' = Append(h, [op |-> "x_ground", parts |-> [j \in 1..Len(is) |-> [name |-> prog[is[j]].name, args |-> IF prog[is[j]].par THEN <<ts[j]>> ELSE <<>>]],
                                   ctx |-> IF wc THEN [use |-> TRUE, map |-> c, style |-> sty] ELSE [use |-> FALSE, map |-> Nothing, style |-> "none"],
                                   exp |-> [must |-> SetToSeq(Strs(On(Outer))), may |-> SetToSeq(Strs(On(Inner)))]])
                /\ prog' = [j \in 1..(Len(prog) - Len(is)) |-> LET ks == {k \in 1..Len(prog) : k \notin {i1, i2}} IN prog[CHOOSE k \in ks : Cardinality({x \in ks : x <= k}) = j]]
                /\ UNCHANGED <<defs, dom, sid>>
Solve == /\ h' = Append(h, [op |-> "x_solve", exp |-> [bag |-> SetToSeq(atoms)]]) /\ UNCHANGED <<defs, prog, dom, atoms, sid>>

Init == /\ n = 0 /\ defs = Nothing /\ prog = <<>> /\ atoms = {} /\ sid = 0
        /\ \E a \in One(Terms) : \E b \in One(Terms) : dom = {a, b} /\ h = <<[op |-> "x_new", dom |-> SetToSeq({a, b})]>>
Next == \/ /\ n < Depth /\ n' = n + 1
           /\ \E k \in One(1..10) : IF k <= 4 THEN (Add \/ UNCHANGED <<h, defs, prog, dom, atoms, sid>>)
                                    ELSE IF k <= 8 THEN (Ground \/ UNCHANGED <<h, defs, prog, dom, atoms, sid>>) ELSE Solve
        \/ n >= Depth /\ n' = Depth + 1 /\ UNCHANGED <<h, defs, prog, dom, atoms, sid>>
Emit == n # Depth + 1 \/ CSVWrite("%1$s", <<ToJson(h \o <<[op |-> "x_solve", exp |-> [bag |-> SetToSeq(atoms)]], [op |-> "end"]>>)>>, IOEnv.OUT)
=============================================================================
