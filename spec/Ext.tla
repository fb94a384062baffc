-------------------------------- MODULE Ext ---------------------------------
(***************************************************************************)
(* External theories behind the Python adapter (C23).  Up to two theories   *)
(* of two libraries live beside two controls.  The library writes down      *)
(* every call it gets; the specification says which calls an operation      *)
(* makes, with what arguments, and which values come back.                  *)
(* Th[i]: [p prefix, id] of slot i;  Sy: symbols the theories know;         *)
(* V[thr][ix]: value, [t |-> "n"] for none;  fail: the call that will fail  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth
VARIABLES h, Th, ids, Sy, V, fail, Shots
vars == <<h, Th, ids, Sy, V, fail, Shots>>
One(S) == {RandomElement(S)}
Libs == {"vfa", "vfb"}
Slots == 1..2
None == [p |-> "", id |-> 0, opt |-> "", stats |-> 0]
Live == {i \in Slots : Th[i].p # ""}
Syms == {"x", "y", "f(x)", "-f(1,\"a b\")", "(x,2)", "7", "-7", "\"x\"", "#inf", "#sup", "f(f(f(x)))", "-x", "()", "x(y)"}
Ints == {"0", "1", "-1", "42", "2147483647", "-2147483648", "65536"}
Doubles == {"0.0", "0.5", "-1.25", "1e+300", "-1e-300", "3.141592653589793", "4294967296.0"}
NoV == [t |-> "n", v |-> ""]
Values == {NoV} \cup {[t |-> "i", v |-> i] : i \in Ints} \cup {[t |-> "d", v |-> i] : i \in Doubles} \cup {[t |-> "s", v |-> i] : i \in Syms}
S(x) == ToString(x)
Tag(i) == " " \o Th[i].p \o " " \o S(Th[i].id)
\* an operation: what it is, what it gives or raises, and what the library saw
Do(o, r, log) == h' = Append(h, o @@ [exp |-> [ret |-> r, log |-> log]])
Boom(fn) == [exc |-> IF fail.mem /\ fn = "model" THEN [oneof |-> <<"MemoryError", "RuntimeError">>] ELSE IF fail.mem THEN "MemoryError" ELSE "RuntimeError", msg |-> "boom " \o fn]
\* r: the value without failure
Call(o, fn, r, log) == IF fail.fn = fn THEN Do(o, Boom(fn), log) /\ fail' = [fn |-> "", mem |-> FALSE]
                       ELSE Do(o, r, log) /\ UNCHANGED fail
\* ------------------------------------------------------------ operations
New == \E i \in One(Slots), p \in One(Libs) :
    IF Th[i].p # "" THEN \* the old one goes away
        /\ Do([op |-> "xt_del", i |-> i], "ok", <<"destroy" \o Tag(i)>>) /\ Th' = [Th EXCEPT ![i] = None] /\ UNCHANGED <<ids, Sy, V, fail, Shots>>
    ELSE /\ Call([op |-> "xt_new", i |-> i, p |-> p], "create", "ok", <<"create " \o p>>)
         /\ IF fail.fn = "create" THEN UNCHANGED <<Th, ids>>
            ELSE Th' = [Th EXCEPT ![i] = [None EXCEPT !.p = p, !.id = ids + 1]] /\ ids' = ids + 1
         /\ UNCHANGED <<Sy, V, Shots>>
Fail == \E f \in One({"create", "configure", "register", "prepare", "rewrite", "model"}), m \in One(BOOLEAN) :
    IF fail.fn # "" THEN UNCHANGED vars
    ELSE /\ fail' = [fn |-> f, mem |-> m] /\ Do([op |-> "xt_fail", fn |-> f, mem |-> m], "ok", <<>>) /\ UNCHANGED <<Th, ids, Sy, V, Shots>>
Version == \E i \in One(Live), a \in One(0..9), b \in One(0..99), c \in One({0, 7, 123456}) :
    Do([op |-> "xt_version", i |-> i, a |-> a, b |-> b, c |-> c], <<a, b, c>>, <<>>) /\ UNCHANGED <<Th, ids, Sy, V, fail, Shots>>
Configure == \E i \in One(Live), k \in One({"key", "a-b", ""}), v \in One({"", "1", "x,y=2", "ü", "a b"}) :
    Call([op |-> "xt_configure", i |-> i, k |-> k, v |-> v], "configure", "ok", <<"configure" \o Tag(i) \o " " \o k \o "=" \o v>>) /\ UNCHANGED <<Th, ids, Sy, V, Shots>>
Register == \E i \in One(Live), c \in One({1, 2}) :
    Call([op |-> "xt_register", i |-> i, c |-> c], "register", "ok", <<"register" \o Tag(i) \o " " \o S(c)>>) /\ UNCHANGED <<Th, ids, Sy, V, Shots>>
Prepare == \E i \in One(Live), c \in One({1, 2}) :
    Call([op |-> "xt_prepare", i |-> i, c |-> c], "prepare", "ok", <<"prepare" \o Tag(i) \o " " \o S(c)>>) /\ UNCHANGED <<Th, ids, Sy, V, Shots>>
\* statements and what the library makes of them (one per alternative)
Stms == { [s |-> "p(1;2).", r |-> <<"p(1).", "p(2).">>], [s |-> "a :- b(x;y;z).", r |-> <<"a :- b(x).", "a :- b(y).", "a :- b(z).">>], [s |-> "q.", r |-> <<"q.">>],
          [s |-> "#false :- not r(X); X = 1.", r |-> <<"#false :- not r(X); X = 1.">>], [s |-> "{ a(1;2) }.", r |-> <<"{ a(1); a(2) }.">>],
          [s |-> "&sum { x } >= 1.", r |-> <<"&sum { x } >= 1.">>] }
\* the callback may raise at its k-th call; kept statements stay readable
Rewrite == \E i \in One(Live), s \in One(Stms), k \in One({0, 0, 1, 2}) :
    LET o == [op |-> "xt_rewrite", i |-> i, s |-> s.s, raise |-> k]
        l == <<"rewrite" \o Tag(i) \o " " \o s.s>> IN
    (IF k = 0 \/ k > Len(s.r) THEN Call(o, "rewrite", s.r, l)
     ELSE Call(o, "rewrite", [exc |-> "Boo", msg |-> "add " \o S(k), got |-> SubSeq(s.r, 1, k)], l)) /\ UNCHANGED <<Th, ids, Sy, V, Shots>>
\* an application that passes its options on
App == \E i \in One(Live), arg \in One({"", "v", "1,2"}), bad \in One({0, 0, 0, 1, 2}) :
    LET log == <<"options" \o Tag(i)>> \o (IF arg = "" THEN <<>> ELSE <<"parse" \o Tag(i) \o " " \o arg>>) \o <<"validate" \o Tag(i) \o " " \o (IF arg = "" THEN Th[i].opt ELSE arg)>> IN
    /\ bad = 0 \/ fail.fn = ""
    /\ Do([op |-> "xt_app", i |-> i, p |-> Th[i].p, arg |-> arg, bad |-> bad], IF bad = 0 THEN "main" ELSE "failed",
          IF bad = 1 THEN <<"options" \o Tag(i)>> ELSE log)
    \* (in a process of its own)
    /\ UNCHANGED <<Th, ids, Sy, V, fail, Shots>>
\* a search passing models and statistics on to one theory
Solve == \E i \in One(Live), c \in One({1, 2}), how \in One({"cb", "yield", "async"}), st \in One(BOOLEAN), k \in One(0..2) :
    LET ms == 2^k
        f == fail.fn = "model"
        mlog == [j \in 1..(IF f THEN 1 ELSE ms) |-> "model" \o Tag(i) \o " " \o S(j)]
        o == [op |-> "xt_solve", i |-> i, p |-> Th[i].p, c |-> c, how |-> how, stat |-> st /\ ~f, k |-> k]
        ext == [j \in 1..ms |-> Th[i].p \o "(" \o S(Th[i].id) \o "," \o S(j) \o ")"] IN
    \* an error in a callback of an asynchronous search arrives as a runtime error where it is waited for
    /\ Call(o, "model", [models |-> ext, stat |-> IF st THEN <<Th[i].id, 100 * (Th[i].stats + 1) + Th[i].id>> ELSE <<>>],
            mlog \o IF st /\ ~f THEN <<"statistics" \o Tag(i)>> ELSE <<>>)
    /\ Th' = (IF st /\ ~f THEN [Th EXCEPT ![i].stats = @ + 1] ELSE Th) /\ UNCHANGED <<ids, Sy, V, Shots>>
AddSym == \E s \in One(Syms) :
    IF s \in {Sy[j] : j \in 1..Len(Sy)} THEN UNCHANGED vars
    ELSE /\ Sy' = Append(Sy, s) /\ V' = [t \in 0..3 |-> Append(V[t], NoV)]
         /\ Do([op |-> "xt_sym", s |-> s], "ok", <<>>) /\ UNCHANGED <<Th, ids, fail, Shots>>
Put == \E t \in One(0..3), j \in One(1..Len(Sy)), v \in One(Values) :
    /\ V' = [V EXCEPT ![t][j] = v] /\ Do([op |-> "xt_put", t |-> t, j |-> j, v |-> v], "ok", <<>>) /\ UNCHANGED <<Th, ids, Sy, fail, Shots>>
\* everything that can be read
Pos(s) == IF \E j \in 1..Len(Sy) : Sy[j] = s THEN CHOOSE j \in 1..Len(Sy) : Sy[j] = s ELSE 0
Read == \E i \in One(Live) :
    /\ Do([op |-> "xt_read", i |-> i, syms |-> SetToSeq(Syms), n |-> Len(Sy)],
          [look |-> [j \in 1..Cardinality(Syms) |-> Pos(SetToSeq(Syms)[j])], get |-> Sy,
           has |-> [t \in 1..4 |-> [j \in 1..Len(Sy) |-> V[t - 1][j].t # "n"]],
           val |-> [t \in 1..4 |-> V[t - 1]],
           all |-> [t \in 1..4 |-> SelectSeq([j \in 1..Len(Sy) |-> [s |-> Sy[j], v |-> V[t - 1][j]]], LAMBDA x : x.v.t # "n")]], <<>>)
    /\ UNCHANGED <<Th, ids, Sy, V, fail, Shots>>
End == /\ Do([op |-> "xt_end"], "ok", [bag |-> [j \in 1..Cardinality(Live) |-> "destroy" \o Tag(SetToSeq(Live)[j])]])
       /\ UNCHANGED <<Th, ids, Sy, V, fail, Shots>>
Start == Do([op |-> "xt_start"], "ok", <<>>) /\ UNCHANGED <<Th, ids, Sy, V, fail, Shots>>
Next ==
    IF h = <<>> THEN Start
    ELSE IF Len(h) >= Depth THEN UNCHANGED vars
    ELSE IF Len(h) = Depth - 1 THEN End
    ELSE IF Live = {} THEN New
    ELSE \E x \in {RandomElement(1..24)} :
         CASE x <= 2 -> New [] x = 3 -> Fail [] x = 4 -> Version [] x = 5 -> Configure [] x \in {6, 7} -> Register [] x \in {8, 9} -> Prepare
           [] x \in {10, 11} -> Rewrite [] x = 12 -> App [] x \in {13, 14} -> Solve [] x \in {15, 16, 17} -> AddSym
           [] x \in {18, 19, 20, 21} -> IF Sy = <<>> THEN AddSym ELSE Put [] OTHER -> Read
Init == h = <<>> /\ Th = [i \in Slots |-> None] /\ ids = 0 /\ Sy = <<>> /\ V = [t \in 0..3 |-> <<>>] /\ fail = [fn |-> "", mem |-> FALSE] /\ Shots = 0
Spec == Init /\ [][Next]_vars
Sane == \A i, j \in Live : i # j => Th[i].id # Th[j].id /\ Th[i].id <= ids
Emit == Len(h) < Depth \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
