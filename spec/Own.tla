-------------------------------- MODULE Own --------------------------------
(***************************************************************************)
(* Ownership of engine objects (C21).  A program keeps objects of the       *)
(* bindings in slots: controls, borrowed controls, objects that have to be  *)
(* closed (solve handles, backends, program builders), views of a control,  *)
(* syntax tree nodes and views of their sequences.  It creates, copies,     *)
(* moves, swaps, assigns, uses, closes and drops them in any order, also    *)
(* with operations that fail in between.  The state says what each slot     *)
(* refers to; after every step the numbers of engine objects that are alive *)
(* or open have to be those reachable from the slots, and nothing may have  *)
(* been released twice or used after its release.                           *)
(* Where a language leaves open when something goes (the old value of a     *)
(* C++ object assigned by move), a range is given until it has to be gone.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth, Ex, S
VARIABLES h, n, sl, ks, nc, nd
vars == <<h, n, sl, ks, nc, nd>>
One(A) == IF Ex \/ A = {} THEN A ELSE {RandomElement(A)}
Slots == 1..S
Cc == Lang = "cc"

Empty == [k |-> "none", id |-> 0, t |-> "none", lim |-> {}]
Slot(k, id, t) == [k |-> k, id |-> id, t |-> t, lim |-> {}]
Shell(t, lim) == [k |-> "moved", id |-> 0, t |-> t, lim |-> lim]
Closable == {"handle", "backend", "builder"}
Views == {"conf", "sub", "arr", "atoms", "atom", "iter"}

\* ----- what is reachable
Held(s, k, id) == \E i \in Slots : s[i].k = k /\ s[i].id = id
HeldBut(s, k, id, j) == \E i \in Slots \ {j} : s[i].k = k /\ s[i].id = id
Limbo(s, k) == {x[2] : x \in {y \in UNION {s[i].lim : i \in Slots} : y[1] = k}}
KidsHeld(s) == {i \in 1..Len(ks) : Held(s, "kid", i)}
OpenOf(s, q, kind) == {i \in 1..Len(q) : q[i].open /\ q[i].kind = kind /\ Held(s, "kid", i)}
MaybeOpen(s, q, kind) == {i \in Limbo(s, "kid") : q[i].open /\ q[i].kind = kind}
CtlMust(s, q) == {c \in 1..4 : Held(s, "ctl", c)}
                 \cup (IF Cc THEN {} ELSE {q[i].ctl : i \in {j \in 1..Len(q) : Held(s, "kid", j) /\ (q[j].open \/ q[j].kind \in Views)}})
CtlMay(s, q) == CtlMust(s, q) \cup Limbo(s, "ctl") \cup (IF Cc THEN {} ELSE {q[i].ctl : i \in {j \in 1..Len(q) : Held(s, "kid", j)}})
NodeMust(s) == {s[i].id : i \in {j \in Slots : s[j].k \in {"node", "view"}}}
NodeMay(s) == NodeMust(s) \cup Limbo(s, "node")
R(a, b) == IF a = b THEN a ELSE [oneof |-> SetToSeq(a..b)]
Count(s, q) == [
    control |-> R(Cardinality(CtlMust(s, q)), Cardinality(CtlMay(s, q))),
    handle |-> R(Cardinality(OpenOf(s, q, "handle")), Cardinality(OpenOf(s, q, "handle") \cup MaybeOpen(s, q, "handle"))),
    backend |-> R(Cardinality(OpenOf(s, q, "backend")), Cardinality(OpenOf(s, q, "backend") \cup MaybeOpen(s, q, "backend"))),
    builder |-> R(Cardinality(OpenOf(s, q, "builder")), Cardinality(OpenOf(s, q, "builder") \cup MaybeOpen(s, q, "builder"))),
    ast |-> R(Cardinality(NodeMust(s)), Cardinality(NodeMay(s))),
    bad |-> <<>>]
\* the slots, kids and step after an operation with result r
Set(s, q, st, r) == sl' = s /\ ks' = q /\ h' = Append(h, st @@ [exp |-> [r |-> r, own |-> Count(s, q)]])
Put(i, x) == [sl EXCEPT ![i] = x]
Free == {i \in Slots : sl[i].k = "none"}
Of(k) == {i \in Slots : sl[i].k = k}
SameC == UNCHANGED nc
SameN == UNCHANGED nd

\* controls without anything open
Busy(c) == \E i \in 1..Len(ks) : ks[i].ctl = c /\ ks[i].open /\ (Held(sl, "kid", i) \/ i \in Limbo(sl, "kid"))
Idle == {i \in Of("ctl") : ~Busy(sl[i].id)}

\* what may be given up: x is what slot i holds
MayGoCtl(i) == LET c == sl[i].id IN
    \/ HeldBut(sl, "ctl", c, i)
    \/ /\ ~Held(sl, "ref", c)
       /\ Cc => ~Busy(c)
MayGoKid(i) == LET x == ks[sl[i].id] IN
    ~x.open \/ Cc \/ HeldBut(sl, "kid", sl[i].id, i) \/ (Lang = "lua" /\ x.kind = "handle")
MayGo(i) == CASE sl[i].k = "ctl" -> MayGoCtl(i) [] sl[i].k = "kid" -> MayGoKid(i) [] OTHER -> TRUE
\* kids after slot i is emptied (s: the slots after that)
Closed(s) == [j \in 1..Len(ks) |-> IF Held(s, "kid", j) \/ j \in Limbo(s, "kid") THEN ks[j] ELSE [ks[j] EXCEPT !.open = FALSE]]

\* ----- controls
New == Free # {} /\ nc < 4 /\ \E i \in One(Free) :
    /\ nc' = nc + 1 /\ SameN
    /\ Set(Put(i, Slot("ctl", nc + 1, "ctl")), ks, [op |-> "ow_ctl", s |-> i], "ok")
Bad == Set(sl, ks, [op |-> "ow_bad"], "exc") /\ SameC /\ SameN
Borrow == Lang # "lua" /\ Free # {} /\ Of("ctl") # {} /\ \E i \in One(Free) : \E j \in One(Of("ctl")) :
    Set(Put(i, Slot("ref", sl[j].id, "ctl")), ks, [op |-> "ow_borrow", s |-> j, to |-> i], "ok") /\ SameC /\ SameN
Kinds == IF Lang = "lua" THEN {"handle", "backend"} ELSE {"handle", "async", "backend", "builder"}
Open == Free # {} /\ Idle # {} /\ Len(ks) < 8 /\ \E i \in One(Free) : \E j \in One(Idle) : \E k \in One(Kinds) :
    LET q == Append(ks, [kind |-> IF k = "async" THEN "handle" ELSE k, ctl |-> sl[j].id, open |-> TRUE])
    IN Set(Put(i, Slot("kid", Len(q), IF k = "async" THEN "handle" ELSE k)), q, [op |-> "ow_open", s |-> j, to |-> i, k |-> k], "ok") /\ SameC /\ SameN
View == ~Cc /\ Free # {} /\ Idle # {} /\ Len(ks) < 8 /\ \E i \in One(Free) : \E j \in One(Idle) : \E k \in One(Views) :
    LET q == Append(ks, [kind |-> k, ctl |-> sl[j].id, open |-> FALSE])
    IN Set(Put(i, Slot("kid", Len(q), IF k = "async" THEN "handle" ELSE k)), q, [op |-> "ow_open", s |-> j, to |-> i, k |-> k], "ok") /\ SameC /\ SameN
\* a view may be used while its control is not searching or under construction
Usable(i) == CASE sl[i].k = "ctl" -> ~Busy(sl[i].id) [] sl[i].k = "ref" -> ~Busy(sl[i].id)
               [] sl[i].k = "kid" -> IF ks[sl[i].id].kind \in Views THEN ~Busy(ks[sl[i].id].ctl) ELSE ks[sl[i].id].open
               [] sl[i].k \in {"node", "view"} -> TRUE [] OTHER -> FALSE
Use == LET U == {i \in Slots : Usable(i)} IN U # {} /\ \E i \in One(U) : Set(sl, ks, [op |-> "ow_use", s |-> i], "ok") /\ SameC /\ SameN
Twice(x) == Cc \/ Lang = "lua" \/ x.kind = "handle"
Close == LET U == {i \in Of("kid") : ks[sl[i].id].kind \in Closable /\ (ks[sl[i].id].open \/ Twice(ks[sl[i].id]))} IN
    U # {} /\ \E i \in One(U) : LET x == ks[sl[i].id] IN \E f \in One(IF x.open THEN {TRUE, FALSE, FALSE} ELSE {FALSE}) :
        Set(sl, [ks EXCEPT ![sl[i].id] = [x EXCEPT !.open = FALSE]], [op |-> "ow_close", s |-> i, fault |-> f], IF f THEN "exc" ELSE "ok") /\ SameC /\ SameN
Scope == Idle # {} /\ \E i \in One(Idle) : \E k \in One(IF Lang = "lua" THEN {"handle"} ELSE Kinds) :
    \E how \in One({"normal", "raise"} \cup (IF Cc THEN {"move", "close"} ELSE {})) :
    Set(sl, ks, [op |-> "ow_scope", s |-> i, k |-> k, how |-> how], IF how = "raise" THEN "exc" ELSE "ok") /\ SameC /\ SameN
Solve == Idle # {} /\ \E i \in One(Idle) : \E how \in One({"plain", "raise", "break", "yraise", "get", "resume"} \cup (IF Lang = "lua" THEN {} ELSE {"async", "araise"})) :
    Set(sl, ks, [op |-> "ow_solve", s |-> i, how |-> how], IF how \in {"raise", "yraise", "araise", "get"} THEN "exc" ELSE "ok") /\ SameC /\ SameN
Faults == {"control_solve", "control_backend", "backend_begin"} \cup (IF Lang = "lua" THEN {} ELSE {"program_builder_init", "program_builder_begin"})
Fault == Idle # {} /\ \E i \in One(Idle) : \E f \in One(Faults) :
    Set(sl, ks, [op |-> "ow_fault", s |-> i, f |-> f], "exc") /\ SameC /\ SameN
BadNew == Set(sl, ks, [op |-> "ow_fault", s |-> 0, f |-> "control_new"], "exc") /\ SameC /\ SameN

\* ----- several names for one object, moving, giving up
Sharable(i) == IF Cc THEN sl[i].k = "node" ELSE sl[i].k \notin {"none", "moved"}
\* the destination is empty or, for C++, an object of the same type (assigned to)
Type(i) == sl[i].t
Dest(i) == Free \cup {j \in Slots \ {i} : sl[j].k # "none" /\ sl[j].k # "ref" /\ Type(j) = Type(i) /\ MayGo(j)}
Alias == LET U == {i \in Slots : Sharable(i) /\ Dest(i) # {}} IN U # {} /\ \E i \in One(U) : \E j \in One(Dest(i)) :
    LET s == Put(j, Slot(sl[i].k, sl[i].id, Type(i))) IN
    Set(s, Closed(s), [op |-> "ow_alias", s |-> i, to |-> j], "ok") /\ SameC /\ SameN
Obj(i) == IF sl[i].k \in {"none", "moved", "view", "ref"} THEN {} ELSE {<<sl[i].k, sl[i].id>>}
Move == LET U == {i \in Slots : sl[i].k \notin {"none", "moved", "ref", "view"} /\ (sl[i].k = "ctl" => ~Held(sl, "ref", sl[i].id)) /\ Dest(i) # {}} IN
    U # {} /\ \E i \in One(U) : \E j \in One(Dest(i)) :
    LET s == [sl EXCEPT ![j] = Slot(sl[i].k, sl[i].id, Type(i)),
                        ![i] = IF Cc THEN Shell(Type(i), sl[j].lim \cup Obj(j)) ELSE Empty]
    IN Set(s, Closed(s), [op |-> "ow_move", s |-> i, to |-> j], "ok") /\ SameC /\ SameN
Swap == LET U == {p \in Slots \X Slots : p[1] < p[2] /\ sl[p[1]].k \notin {"none", "ref"} /\ sl[p[2]].k \notin {"none", "ref"} /\ Type(p[1]) = Type(p[2])} IN
    U # {} /\ \E p \in One(U) :
    LET s == [sl EXCEPT ![p[1]] = sl[p[2]], ![p[2]] = sl[p[1]]] IN Set(s, ks, [op |-> "ow_swap", s |-> p[1], to |-> p[2]], "ok") /\ SameC /\ SameN
Self == Cc /\ Of("node") # {} /\ \E i \in One(Of("node")) : Set(sl, ks, [op |-> "ow_self", s |-> i], "ok") /\ SameC /\ SameN
Drop == LET U == {i \in Slots : sl[i].k # "none" /\ MayGo(i)} IN U # {} /\ \E i \in One(U) :
    LET s == Put(i, Empty) IN Set(s, Closed(s), [op |-> "ow_drop", s |-> i], "ok") /\ SameC /\ SameN

\* ----- syntax trees
Nodes == Of("node")
Fun(i) == sl[i].k \in {"node", "view"} /\ nd[sl[i].id].t = "fun"
RECURSIVE Below(_, _)
Below(q, x) == {x} \cup UNION {Below(q, y) : y \in Range(q[x].c) \cup Range(q[x].q) \cup (q[x].o \ {0})}
Keep2(s, q, st, r) == Set(s, ks, st, r) /\ nd' = q /\ SameC
N(t, c, q, o) == [t |-> t, c |-> c, q |-> q, o |-> o]
Opt(x) == IF x = 0 THEN {} ELSE {x}
Build == Lang # "lua" /\ Free # {} /\ Len(nd) < 14 /\ \E i \in One(Free) :
    \* (thg is a node with a sequence of strings; only in one of the modes, which share the rest)
    \E t \in One({"leaf"} \cup (IF Ex THEN {} ELSE {"thg"}) \cup (IF Nodes = {} THEN {} ELSE {"fun", "un", "tha"})) :
    \E a \in One(IF t \in {"un", "tha"} THEN {<<j>> : j \in Nodes} ELSE {<<>>}) :
    \E b \in One(IF t # "fun" THEN {<<>>} ELSE {<<>>} \cup {<<j>> : j \in Nodes} \cup {<<j, k>> : j \in Nodes, k \in Nodes}) :
    \E o \in One(IF t # "tha" THEN {0} ELSE {0} \cup Nodes) : \E f \in One(IF Ex THEN {FALSE} ELSE {TRUE, FALSE, FALSE, FALSE}) :
    LET Id(x) == [y \in DOMAIN x |-> sl[x[y]].id]
        x == N(t, Id(a), Id(b), IF o = 0 THEN {} ELSE {sl[o].id})
        q == Append(nd, x)
        st == [op |-> "ow_build", to |-> i, t |-> t, c |-> a, q |-> b, o |-> o, fault |-> f]
    IN IF f THEN Keep2(sl, nd, st, "exc") ELSE Keep2(Put(i, Slot("node", Len(q), "node")), q, st, "ok")
Whichs(i) == LET x == nd[sl[i].id] IN
    (IF x.c = <<>> \/ sl[i].k = "view" THEN {} ELSE {<<"arg", 0>>}) \cup (IF x.o = {} THEN {} ELSE {<<"opt", 0>>}) \cup {<<"seq", j>> : j \in DOMAIN x.q}
At(x, w) == IF w[1] = "arg" THEN x.c[1] ELSE IF w[1] = "opt" THEN CHOOSE y \in x.o : TRUE ELSE x.q[w[2]]
AnyNode == Of("node") \cup Of("view")
NodeDest == Free \cup Nodes
Child == LET U == {i \in AnyNode : Whichs(i) # {}} IN U # {} /\ NodeDest # {} /\ \E i \in One(U) : \E w \in One(Whichs(i)) : \E j \in One(NodeDest) :
    Keep2(Put(j, Slot("node", At(nd[sl[i].id], w), "node")), nd, [op |-> "ow_child", s |-> i, w |-> w[1], i |-> w[2], to |-> j], "ok")
\* parts of i that may be replaced by j without making a cycle
Fits(i, j) == sl[i].id \notin Below(nd, sl[j].id)
SetChild == LET U == {<<i, j>> \in AnyNode \X Nodes : Fits(i, j) /\ (Whichs(i) # {} \/ nd[sl[i].id].t = "tha")} IN U # {} /\ \E u \in One(U) :
    LET i == u[1]
        x == nd[sl[i].id]
        v == sl[u[2]].id
    IN \E w \in One(Whichs(i) \cup (IF x.t = "tha" THEN {<<"opt", 0>>} ELSE {})) : \E f \in One(IF w[1] = "seq" \/ Ex THEN {FALSE} ELSE {TRUE, FALSE, FALSE}) :
       LET y == IF w[1] = "arg" THEN [x EXCEPT !.c = <<v>>] ELSE IF w[1] = "opt" THEN [x EXCEPT !.o = {v}] ELSE [x EXCEPT !.q[w[2]] = v]
       IN Keep2(sl, IF f THEN nd ELSE [nd EXCEPT ![sl[i].id] = y], [op |-> "ow_set", s |-> i, w |-> w[1], i |-> w[2], v |-> u[2], fault |-> f], IF f THEN "exc" ELSE "ok")
Unset == LET U == {i \in Nodes : nd[sl[i].id].o # {}} IN U # {} /\ \E i \in One(U) :
    Keep2(sl, [nd EXCEPT ![sl[i].id].o = {}], [op |-> "ow_unset", s |-> i], "ok")
Strings(i) == nd[sl[i].id].t = "thg"
SeqView == LET U == {i \in Nodes : Fun(i) \/ Strings(i)} IN U # {} /\ Free # {} /\ \E i \in One(U) : \E j \in One(Free) :
    Keep2(Put(j, Slot("view", sl[i].id, IF Strings(i) THEN "sview" ELSE "view")), nd, [op |-> "ow_seq", s |-> i, to |-> j], "ok")
Ins == LET U == {<<i, j>> \in AnyNode \X Nodes : Fun(i) /\ Fits(i, j) /\ Len(nd[sl[i].id].q) < 4} IN U # {} /\ \E u \in One(U) :
    LET x == nd[sl[u[1]].id] IN \E p \in One(1..Len(x.q) + 1) : \E f \in One(IF Ex THEN {FALSE} ELSE {TRUE, FALSE, FALSE}) :
       Keep2(sl, IF f THEN nd ELSE [nd EXCEPT ![sl[u[1]].id].q = SubSeq(x.q, 1, p - 1) \o <<sl[u[2]].id>> \o SubSeq(x.q, p, Len(x.q))],
             [op |-> "ow_ins", s |-> u[1], i |-> p, v |-> u[2], fault |-> f], IF f THEN "exc" ELSE "ok")
Del == LET U == {i \in AnyNode : Fun(i) /\ nd[sl[i].id].q # <<>>} IN U # {} /\ \E i \in One(U) :
    LET x == nd[sl[i].id] IN \E p \in One(DOMAIN x.q) :
       Keep2(sl, [nd EXCEPT ![sl[i].id].q = SubSeq(x.q, 1, p - 1) \o SubSeq(x.q, p + 1, Len(x.q))], [op |-> "ow_del", s |-> i, i |-> p], "ok")
Copy == Nodes # {} /\ NodeDest # {} /\ Len(nd) < 14 /\ \E i \in One(Nodes) : \E j \in One(NodeDest) : \E f \in One(IF Ex THEN {FALSE} ELSE {TRUE, FALSE, FALSE}) :
    LET q == Append(nd, nd[sl[i].id])
        st == [op |-> "ow_copy", s |-> i, to |-> j, deep |-> FALSE, fault |-> f]
    IN IF f THEN Keep2(sl, nd, st, "exc") ELSE Keep2(Put(j, Slot("node", Len(q), "node")), q, st, "ok")
\* fresh nodes for everything below
RECURSIVE Fresh(_, _), FreshAll(_, _, _)
Fresh(q, x) == LET a == FreshAll(q, q[x].c, <<>>)
                   b == FreshAll(a[1], q[x].q, <<>>)
               IN <<Append(b[1], N(q[x].t, a[2], b[2], {})), Len(b[1]) + 1>>
FreshAll(q, xs, acc) == IF xs = <<>> THEN <<q, acc>> ELSE LET r == Fresh(q, xs[1]) IN FreshAll(r[1], Tail(xs), Append(acc, r[2]))
Deep == LET U == {i \in Nodes : \A y \in Below(nd, sl[i].id) : nd[y].o = {}} IN U # {} /\ NodeDest # {} /\ Len(nd) < 14 /\ \E i \in One(U) : \E j \in One(NodeDest) :
    \E f \in One(IF Ex THEN {FALSE} ELSE {TRUE, FALSE, FALSE}) :
    \E r \in {Fresh(nd, sl[i].id)} :
    LET st == [op |-> "ow_copy", s |-> i, to |-> j, deep |-> TRUE, fault |-> f]
    IN IF f THEN Keep2(sl, nd, st, "exc") ELSE Keep2(Put(j, Slot("node", r[2], "node")), r[1], st, "ok")
Parse == Lang # "lua" /\ Free # {} /\ Len(nd) < 14 /\ \E i \in One(Free) : \E k \in One(0..4) : \E f \in One({"none", "raise", "syntax"}) :
    \* the k-th of four statements is kept, unless the callback raises there or the program is wrong
    LET st == [op |-> "ow_parse", to |-> i, keep |-> k, fault |-> f]
        q == Append(nd, N("stm", <<>>, <<>>, {}))
    IN IF f = "none" /\ k > 0 THEN Keep2(Put(i, Slot("node", Len(q), "node")), q, st, "ok")
       ELSE Keep2(sl, nd, st, IF f = "none" \/ (f = "raise" /\ k = 0) THEN "ok" ELSE "exc")
Walk == Nodes # {} /\ \E i \in One(Nodes) : \E w \in One({"visit", "transform", "repr", "compare", "hash", "values"} \cup (IF nd[sl[i].id].t \in {"tha", "stm"} \/ \E y \in Below(nd, sl[i].id) : nd[y].t = "thg" THEN {} ELSE {"unpool"})) :
    Keep2(sl, nd, [op |-> "ow_walk", s |-> i, w |-> w], "ok")
Add == LET U == {i \in Of("kid") : ks[sl[i].id].kind = "builder" /\ ks[sl[i].id].open} IN U # {} /\ \E i \in One(U) : \E j \in One({0} \cup {x \in Nodes : nd[sl[x].id].t = "stm"}) :
    Keep2(sl, nd, [op |-> "ow_add", s |-> i, v |-> j], "ok")

Init == h = <<[op |-> "ow_new"]>> /\ n = 0 /\ sl = [i \in Slots |-> Empty] /\ ks = <<>> /\ nc = 0 /\ nd = <<>>
\* everything goes: what is open is closed, then nodes, kids and controls are dropped
OrderOf(i) == CASE sl[i].k \in {"node", "view", "none"} -> 1 [] sl[i].k = "kid" -> 2 [] sl[i].k = "moved" -> 2 [] sl[i].k = "ref" -> 3 [] OTHER -> 4
None == [control |-> 0, handle |-> 0, backend |-> 0, builder |-> 0, ast |-> 0, bad |-> <<>>]
End == h \o <<[op |-> "ow_end", close |-> SetToSeq({i \in Of("kid") : ks[sl[i].id].open /\ \A j \in Of("kid") : sl[j].id = sl[i].id => i <= j}),
               order |-> SetToSortSeq(Slots, LAMBDA a, b : OrderOf(a) < OrderOf(b) \/ (OrderOf(a) = OrderOf(b) /\ a < b)),
               exp |-> [r |-> "ok", own |-> None]]>>
Pick(k) == CASE k = 1 -> New [] k = 2 -> Bad [] k = 3 -> Borrow [] k = 4 -> Open [] k = 5 -> View [] k = 6 -> Use [] k = 7 -> Close
             [] k = 8 -> Scope [] k = 9 -> Solve [] k = 10 -> Fault [] k = 11 -> BadNew [] k = 12 -> Alias [] k = 13 -> Move [] k = 14 -> Swap
             [] k = 15 -> Self [] k = 16 -> Drop [] k = 17 -> Open [] k = 18 -> Move [] k = 19 -> Drop [] k = 20 -> Build [] k = 21 -> Child
             [] k = 22 -> SetChild [] k = 23 -> Unset [] k = 24 -> SeqView [] k = 25 -> Ins [] k = 26 -> Del [] k = 27 -> Copy [] k = 28 -> Deep
             [] k = 29 -> Parse [] k = 30 -> Walk [] k = 31 -> Add [] OTHER -> Build
Next == \/ /\ n < Depth /\ n' = n + 1
           /\ IF Ex THEN New \/ Borrow \/ Open \/ View \/ Close \/ Alias \/ Move \/ Swap \/ Drop
              ELSE IF n = 0 THEN New
              ELSE \E k \in One(IF Lang = "lua" THEN 1..19 ELSE 1..32) : Pick(k) \/ (~ENABLED Pick(k) /\ UNCHANGED <<h, sl, ks, nc, nd>>)
        \/ /\ n = Depth /\ n' = Depth + 1 /\ h' = End /\ UNCHANGED <<sl, ks, nc, nd>>
Emit == n # Depth + 1 \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
