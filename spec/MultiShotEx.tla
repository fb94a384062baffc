---------------------------- MODULE MultiShotEx ----------------------------
(* Every history of up to Depth operations of a small fixed family (C01):    *)
(* three program parts with an external, re-grounding, releasing, backend    *)
(* rules, cleanup; each history ends in two solve calls.                     *)
EXTENDS Asp, Json, CSV, IOUtils
CONSTANT Depth
VARIABLES P, poss, ext, done, h
vars == <<P, poss, ext, done, h>>

N(a) == Lit(a, 1)
L(a) == Lit(a, 0)
Prog == [base |-> {Choice(<<"a">>, <<>>), Rule(<<"b">>, <<N("a")>>), Rule(<<"c">>, <<L("e"), N("z")>>)},
         p |-> {Rule(<<"d">>, <<L("e")>>), Rule(<<"f">>, <<N("e"), L("a")>>), Rule(<<>>, <<L("d"), L("b")>>)},
         q |-> {Rule(<<"x", "y">>, <<N("d")>>), Choice(<<"w">>, <<L("c")>>)}]
Text(n) == Join(SetToSeq({RuleText(r) : r \in Prog[n]}), " ") \o (IF n = "base" THEN " #external e. #external g." ELSE "")
Exts(n) == IF n = "base" THEN {"e", "g"} ELSE {}

Init == /\ P = {} /\ poss = {} /\ ext = <<>> /\ done = {}
        /\ h = <<[op |-> "new", args |-> <<"0">>]>> \o
               [i \in 1..3 |-> LET n == <<"base", "p", "q">>[i] IN [op |-> "add", part |-> n, params |-> <<>>, text |-> Text(n)]]
Len0 == 4
Ground(n) ==
    /\ n \notin done /\ (n = "base" \/ "base" \in done)
    /\ LET S == Possible(Prog[n], poss \cup Exts(n)) IN
       /\ poss' = S /\ P' = P \cup Simplify(Prog[n], S)
    /\ ext' = ext @@ [a \in Exts(n) |-> "f"] /\ done' = done \cup {n}
    /\ h' = Append(h, [op |-> "ground", parts |-> <<[name |-> n, args |-> <<>>]>>])
Assign(a, v, by) == /\ a \in DOMAIN ext /\ ext' = [ext EXCEPT ![a] = v]
                    /\ h' = Append(h, [op |-> "assign", a |-> a, v |-> v, by |-> by])
                    /\ UNCHANGED <<P, poss, done>>
Release(a) == /\ a \in DOMAIN ext /\ ext' = [x \in DOMAIN ext \ {a} |-> ext[x]]
              /\ h' = Append(h, [op |-> "release", a |-> a, by |-> "sym"]) /\ UNCHANGED <<P, poss, done>>
Back == /\ "back" \notin done /\ done' = done \cup {"back"} /\ "base" \in done
        /\ LET R == {Choice(<<"k">>, <<L("a")>>), Rule(<<"m">>, <<N("k")>>)} IN
           /\ P' = P \cup R
           /\ h' = Append(h, [op |-> "backend", stmts |-> <<[k |-> "atom", a |-> "k"], [k |-> "atom", a |-> "m"],
                                                           [k |-> "rule", r |-> Choice(<<"k">>, <<L("a")>>)], [k |-> "rule", r |-> Rule(<<"m">>, <<N("k")>>)]>>])
        /\ poss' = poss \cup {"k", "m"} /\ UNCHANGED ext
ExtRules == {IF ext[a] = "t" THEN Rule(<<a>>, <<>>) ELSE Choice(<<a>>, <<>>) : a \in {x \in DOMAIN ext : ext[x] # "f"}}
Models(ass) == SetToSeq({X \in StableModels(P \cup ExtRules) : \A i \in 1..Len(ass) : (ass[i].a \in X) = ass[i].s})
SolveStep(ass, m) ==
    LET SM == Models(ass) IN
    [op |-> "solve", mode |-> m, by |-> "sym", ass |-> ass, want |-> <<"atoms">>,
     exp |-> [sat |-> SM # <<>>, unsat |-> SM = <<>>, exh |-> TRUE, int |-> FALSE,
              models |-> Bag([i \in 1..Len(SM) |-> [atoms |-> BagOf(SM[i])]])]]
AS(a, s) == [a |-> a, s |-> s]
Solve == h' = Append(h, SolveStep(<<AS("a", TRUE)>>, "yield")) /\ UNCHANGED <<P, poss, ext, done>>
         /\ h[Len(h)].op # "solve" /\ done # {}
Clean == h' = Append(h, [op |-> "cleanup"]) /\ h[Len(h)].op # "cleanup" /\ done # {} /\ UNCHANGED <<P, poss, ext, done>>
Next == /\ Len(h) < Len0 + Depth
        /\ \/ \E n \in {"base", "p", "q"} : Ground(n)
           \/ \E v \in {"t", "u", "f"} : Assign("e", v, IF v = "t" THEN "sym" ELSE "lit")
           \/ Release("e") \/ Back \/ Solve \/ Clean
Emit == Len(h) < Len0 + Depth \/ CSVWrite("%1$s", <<ToJson(
          h \o <<SolveStep(<<>>, "cb"), SolveStep(<<AS("e", FALSE), AS("k", TRUE)>>, "async"), [op |-> "end"]>>)>>, IOEnv.OUT)
=============================================================================
