------------------------------- MODULE Handle -------------------------------
(***************************************************************************)
(* Solve handles and solve events (C05).  A control over a program with K   *)
(* models is searched any number of times, in all modes, with any subset of *)
(* callbacks, a model handler that may stop the search, assumptions, a      *)
(* model limit, and any order of handle operations.  The state of a search  *)
(* is how many models it delivered and whether a result is ready; the       *)
(* specification gives every answer, and, when the handle is left, the      *)
(* sequence of events and that the handle was closed once.                  *)
(* The unsatisfiable-core and lower-bound events are scripted: the bounds   *)
(* may be any numbers.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth, Ex
VARIABLES h, n, K, lim, lv
vars == <<h, n, K, lim, lv>>
One(S) == IF Ex THEN S ELSE {RandomElement(S)}
Least(a, b) == IF a < b THEN a ELSE b

Modes == IF Lang = "lua" THEN {"sync", "y"} ELSE {"sync", "y", "a", "ya"}
Async(l) == l.mode \in {"a", "ya"}
Whole(l) == l.mode \in {"a", "sync"} \* runs to the end at once
Bounds == {<<>>, <<"7">>, <<"-1">>, <<"3,-2">>, <<"0">>, <<"">>, <<"9223372036854775807">>, <<"-9223372036854775808,5">>, <<"1,2,3">>, <<"1", "4", "12">>, <<"2147483648,-2147483649", "0,0">>}
Asss == {{}, {"e"}, {"-a1"}, {"e", "-a1"}}

\* ----- how a search goes
Models(k, ass) == IF "e" \in ass THEN 0 ELSE IF "-a1" \in ass THEN (IF k = 0 THEN 0 ELSE k - 1) ELSE k
Limit(m, li) == IF li = 0 THEN m ELSE Least(li, m)
Stops(l) == l.stop # 0 /\ l.stop <= Limit(Models(K, l.ass), l.lim)
T(l) == IF Stops(l) THEN l.stop ELSE Limit(Models(K, l.ass), l.lim)
Natural(l) == LET m == Models(K, l.ass) IN
    IF m = 0 THEN "Ue" ELSE IF Stops(l) \/ (l.lim # 0 /\ l.lim <= m) THEN "S" ELSE "Se"
Cut(i) == IF i = 0 THEN "?i" ELSE "Si"
Advance(l) == IF ~Whole(l) /\ l.i < T(l) THEN [l EXCEPT !.ph = "model", !.i = l.i + 1]
              ELSE [l EXCEPT !.ph = "done", !.outs = {<<T(l), Natural(l)>>}]
Ready(l) == IF l.ph \in {"start", "pending"} THEN Advance(l) ELSE l
Resumed(l) == IF l.ph = "model" THEN [l EXCEPT !.ph = "pending"] ELSE l
\* the end of the search and the cancellation may meet
Ends(l) == {<<T(l), Natural(l)>>, <<T(l), Natural(l) \o "i">>}
Outs(l) ==
    CASE l.ph = "done" -> l.outs
      [] l.ph = "model" -> {<<l.i, Cut(l.i)>>}
      [] l.mode = "sync" -> {<<T(l), Natural(l)>>}
      [] l.mode = "a" -> {<<j, Cut(j)>> : j \in 0..T(l)} \cup Ends(l)
      [] Async(l) \/ T(l) = 0 -> {<<l.i, Cut(l.i)>>} \cup (IF l.i < T(l) THEN {<<l.i + 1, Cut(l.i + 1)>>} ELSE Ends(l))
      [] OTHER -> {<<l.i, Cut(l.i)>>}
Cancelled(l) == [l EXCEPT !.ph = "done", !.outs = Outs(l)]
Results(l) == IF l.ph = "done" THEN {o[2] : o \in l.outs} ELSE {"S"}
Log(l, o) == (IF "unsat" \in l.on THEN [j \in 1..Len(l.bounds) |-> "U" \o l.bounds[j]] ELSE <<>>)
             \o (IF "model" \in l.on THEN [j \in 1..o[1] |-> "M" \o ToString(j)] ELSE <<>>)
             \o (IF "statistics" \in l.on THEN <<"S">> ELSE <<>>)
             \o (IF "finish" \in l.on THEN <<"F" \o o[2]>> ELSE <<>>)
\* unsatisfiable cores: subsets of the assumptions that suffice
Cores(l) ==
    IF l.ph = "done" /\ \E o \in l.outs : o[2] = "Ue" THEN
        IF K = 0 THEN {{}}
        ELSE {c \in SUBSET l.ass : "e" \in c \/ ("-a1" \in c /\ K = 1)}
    ELSE {{}}
OneOf(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE [oneof |-> SetToSeq(S)]
BagOf(S) == [bag |-> SetToSeq(S)]
Cur(l) == IF l.ph = "model" THEN l.i ELSE 0
Push(s, e) == h' = Append(h, s @@ [exp |-> e])
Keep == UNCHANGED <<K, lim>>
Do(name, l, e) == Push([op |-> name], e) /\ lv' = l /\ Keep

\* ----- starting
Start ==
    /\ lv.ph = "none"
    /\ \E md \in One(Modes) : \E on \in One(CASE Ex /\ Lang = "py" -> {{"model", "finish", "statistics"}}
                                             [] Lang = "py" -> SUBSET {"model", "finish", "statistics", "unsat"}
                                             [] Lang = "cc" -> {{}, {"model", "finish", "statistics", "unsat"}}
                                             [] OTHER -> IF md = "y" THEN {{}} ELSE SUBSET {"model", "finish"}) :
       \E st \in One(IF "model" \in on THEN 0..K ELSE {0}) : \E ass \in One(IF Ex THEN {{}} ELSE Asss) : \E b \in One(IF Lang = "lua" \/ Ex THEN {<<>>} ELSE Bounds) :
       \E rt \in One(IF Ex THEN {"none"} ELSE {"none", "true"}) :
       LET l == [ph |-> "start", mode |-> md, on |-> on, stop |-> st, ass |-> ass, bounds |-> b, lim |-> lim, i |-> 0, outs |-> {}]
           s == [op |-> "h_solve", mode |-> md, on |-> on, stop |-> st, ass |-> SetToSeq(ass), bounds |-> b, goon |-> rt]
           \* Python and Lua return the result of a plain search at once
           whole == [l EXCEPT !.ph = "done", !.outs = {<<T(l), Natural(l)>>}]
       IN IF md = "sync" /\ Lang # "cc"
          THEN \E oc \in One(IF Lang = "py" THEN BOOLEAN ELSE {FALSE}) :
               /\ Push(s @@ [core |-> oc], [result |-> Natural(l), log |-> Log(whole, <<T(l), Natural(l)>>), closes |-> 1, same |-> TRUE,
                                            core |-> IF oc /\ Natural(l) = "Ue" THEN OneOf({BagOf(c) : c \in Cores(whole)}) ELSE "none"])
               /\ UNCHANGED lv /\ Keep
          ELSE /\ Push(s, "ok") /\ lv' = l /\ Keep
\* ----- operations
On == lv.ph # "none"
Yields == lv.mode \in {"y", "ya"}
Get == On /\ LET l == Ready(lv) IN Do("h_get", l, OneOf(Results(l)))
Model == On /\ Lang # "lua" /\ (Lang = "cc" \/ lv.mode # "sync") /\ LET l == Ready(lv) IN Do("h_model", l, Cur(l))
Next1 == On /\ Yields /\ LET l == Ready(Resumed(lv)) IN Do("h_next", l, Cur(l))
Resume == On /\ Do("h_resume", Resumed(lv), "ok")
Wait == On /\ Lang # "lua" /\ \E to \in One({"none"} \cup (IF Ex THEN {} ELSE {"-1"}) \cup (IF Async(lv) /\ ~Ex THEN {"10"} ELSE {})) : LET l == Ready(lv) IN
        Push([op |-> "h_wait", t |-> to], TRUE) /\ lv' = l /\ Keep
Poll == On /\ Lang # "lua" /\ Do("h_poll", lv, IF lv.ph \in {"model", "done"} THEN TRUE
                                             ELSE IF Async(lv) \/ lv.mode = "sync" \/ T(lv) = 0 THEN [any |-> 1] ELSE FALSE)
Cancel == On /\ (lv.mode = "sync" => lv.ph = "done") /\ Do("h_cancel", Cancelled(lv), "ok")
Core == On /\ lv.ph = "done" /\ Cardinality(lv.outs) = 1
        /\ LET cs == Cores(lv) IN Do("h_core", lv, IF cs = {{}} THEN [oneof |-> <<BagOf({}), "none">>] ELSE OneOf({BagOf(c) : c \in cs}))
\* a loop over the remaining models
Rest == On /\ Yields /\
        LET l == IF Lang = "cc" THEN lv ELSE Resumed(lv)
            from == IF l.ph = "model" THEN l.i ELSE l.i + 1
            cnt == IF l.ph = "done" THEN 0 ELSE T(l) - from + 1
        IN \E k \in One(0..cnt) : \* number of models after which the loop is left; cnt: never
           IF k = 0 /\ cnt # 0 THEN FALSE
           ELSE LET l2 == IF k = cnt THEN (IF l.ph = "done" THEN l ELSE [l EXCEPT !.i = T(l), !.ph = "done", !.outs = {<<T(l), Natural(l)>>}])
                          ELSE [l EXCEPT !.ph = "model", !.i = from + k - 1]
                IN Push([op |-> "h_rest", brk |-> IF k = cnt THEN 0 ELSE k], [j \in 1..k |-> from + j - 1]) /\ lv' = l2 /\ Keep
Leave == On /\ (lv.mode = "sync" => lv.ph = "done") /\ \E how \in One({"normal", "raise"}) :
         /\ Push([op |-> "h_leave", how |-> how], OneOf({[log |-> Log(lv, o), closes |-> 1, same |-> TRUE, how |-> how] : o \in Outs(lv)}))
         /\ lv' = [ph |-> "none"] /\ Keep
SetLimit == /\ lv.ph = "none" /\ \E x \in One({0, 0, 1, 2, 5}) : Push([op |-> "h_limit", i |-> x], "ok") /\ lim' = x /\ UNCHANGED <<K, lv>>

Init == /\ n = 0 /\ K \in One(IF Ex THEN 0..2 ELSE 0..4) /\ lim \in One(IF Ex THEN {0, 2} ELSE {0, 0, 1, 3}) /\ lv = [ph |-> "none"]
        /\ h = <<[op |-> "h_new", k |-> K, lim |-> lim]>>
Ops == Get \/ Model \/ Next1 \/ Resume \/ Wait \/ Poll \/ Cancel \/ Core \/ Rest \/ Leave
Pick(k) == CASE k = 1 -> Get [] k = 2 -> Model [] k = 3 -> Next1 [] k = 4 -> Resume [] k = 5 -> Wait [] k = 6 -> Poll
             [] k = 7 -> Cancel [] k = 8 -> Core [] k = 9 -> Rest [] k = 10 -> Leave [] k = 11 -> Get [] k = 12 -> Next1 [] k = 13 -> Resume [] OTHER -> Model
Next == \/ /\ n < Depth /\ n' = n + 1
           /\ IF Ex THEN (n = 0 /\ Start) \/ Ops
              ELSE IF lv.ph = "none" THEN \E k \in One(1..5) : IF k = 1 THEN SetLimit ELSE Start
              ELSE \E k \in One(1..14) : Pick(k) \/ (~ENABLED Pick(k) /\ UNCHANGED <<h, K, lim, lv>>)
        \/ /\ n >= Depth /\ n' = Depth + 1
           /\ IF lv.ph = "none" THEN UNCHANGED <<h, K, lim, lv>>
              ELSE LET l == IF lv.mode = "sync" THEN Ready(lv) ELSE lv
                   IN /\ h' = h \o (IF lv.mode = "sync" THEN <<[op |-> "h_get", exp |-> OneOf(Results(l))]>> ELSE <<>>)
                           \o <<[op |-> "h_leave", how |-> "normal",
                                 exp |-> OneOf({[log |-> Log(l, o), closes |-> 1, same |-> TRUE, how |-> "normal"] : o \in Outs(l)})]>>
                      /\ lv' = [ph |-> "none"] /\ Keep
Emit == n # Depth + 1 \/ CSVWrite("%1$s", <<ToJson(Append(h, [op |-> "end"]))>>, IOEnv.OUT)
=============================================================================
