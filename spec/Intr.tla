-------------------------------- MODULE Intr --------------------------------
(***************************************************************************)
(* Interrupting searches (C25).  A control over the program with all sets   *)
(* of N atoms as its models (and, behind an assumption, a pigeonhole        *)
(* problem nobody waits for) is searched again and again; interrupts come   *)
(* from every place: the model, statistics and finish callbacks, the        *)
(* propagator callbacks, the caller of a yielding or asynchronous search,   *)
(* another thread, a callback during grounding, or while nothing runs.      *)
(* pend: an interrupt was issued while no search was running, and ends the  *)
(* next one.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth, Ex
VARIABLES h, N, T, pend
vars == <<h, N, T, pend>>
One(S) == IF Ex THEN S ELSE {RandomElement(S)}
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE Pow(_)
Pow(i) == IF i = 0 THEN 1 ELSE 2 * Pow(i - 1)
Hows == IF Lang = "lua" THEN {"sync", "y"} ELSE {"sync", "y", "a", "ya"}
Yields(how) == how \in {"y", "ya"}
\* where something happens; k: the how manieth time
Points == {"none", "model", "stop", "check", "prop", "undo", "init", "stat", "finish", "cancel", "iy", "after"}
Uses(how, pt, k) ==
    CASE Lang = "lua" /\ (pt = "stat" \/ (how = "y" /\ pt \in {"model", "stop", "finish"})) -> FALSE
      [] pt \in {"none", "init", "stat", "finish"} -> k = 1
      [] pt = "after" -> how # "sync" /\ k = 1
      [] pt \in {"prop", "undo"} -> k = 1
      [] pt \in {"cancel", "iy"} -> Yields(how)
      [] OTHER -> TRUE
\* ------------------------------------------------------------ one search
All == Pow(N)
\* in Lua there is no statistics callback, and no callback is possible while yielding
Log(how, m) == IF Lang = "lua" THEN (IF how = "y" THEN "" ELSE IF m THEN "MF" ELSE "F") ELSE IF m THEN "MSF" ELSE "SF"
Rng(a, b) == IF a = b THEN a ELSE [oneof |-> [j \in 1..(b - a + 1) |-> a + j - 1]]
\* reached: the point comes while the search is on
Cut(i) == IF i = 0 THEN "?i" ELSE "Si"
Full(lim) == IF lim = 0 \/ lim > All THEN "Se" ELSE "S"
Top(lim) == IF lim = 0 THEN All ELSE Least(lim, All)
Reached(pt, k, lim) == k <= Top(lim)
Expect(how, pt, k, lim) ==
    IF pend THEN [m |-> 0, log |-> Log(how, FALSE), res |-> "?i", y |-> 0, over |-> TRUE]
    ELSE IF pt = "init" THEN [m |-> 0, log |-> Log(how, FALSE), res |-> "?i", y |-> 0, over |-> TRUE]
    ELSE IF pt \in {"model", "check"} /\ Reached(pt, k, lim) THEN [m |-> k, log |-> Log(how, TRUE), res |-> "Si", y |-> IF how = "y" THEN k ELSE IF how = "ya" THEN Rng(k - 1, k) ELSE 0, over |-> TRUE]
    ELSE IF pt \in {"cancel", "iy"} /\ Reached(pt, k, lim) THEN [m |-> k, log |-> Log(how, TRUE), res |-> "Si", y |-> k, over |-> TRUE]
    ELSE IF pt = "stop" /\ Reached(pt, k, lim) THEN [m |-> k, log |-> Log(how, TRUE), res |-> "S", y |-> IF Yields(how) THEN k ELSE 0, over |-> TRUE]
    ELSE IF pt \in {"prop", "undo"} /\ Top(lim) >= 2
         THEN [oneof |-> [j \in 1..(Top(lim) + 1) |-> [m |-> j - 1, log |-> Log(how, j > 1), res |-> Cut(j - 1), over |-> TRUE,
                                                  y |-> IF how = "y" THEN j - 1 ELSE IF how = "ya" THEN [any |-> TRUE] ELSE 0]]]
    ELSE [m |-> Top(lim), log |-> Log(how, TRUE), res |-> Full(lim), y |-> IF Yields(how) THEN Top(lim) ELSE 0, over |-> TRUE]
Op(o, e) == Append(h, [op |-> o, exp |-> e])
\* ------------------------------------------------------------ operations
New == /\ h = <<>>
       /\ \E i \in (IF Ex THEN {2} ELSE One({1, 2, 3, 4})), t \in (IF Ex THEN {1} ELSE One({1, 1, 2})) :
          /\ N' = i /\ T' = t /\ pend' = FALSE
          /\ h' = <<[op |-> "in_new", n |-> i, t |-> t, exp |-> "ok"]>>
Interrupt ==
    /\ \E via \in One(IF Lang = "lua" THEN {"main", "ground"} ELSE {"main", "thread", "ground"}) :
       h' = Append(h, [op |-> "in_int", via |-> via, exp |-> "ok"])
    /\ pend' = TRUE /\ UNCHANGED <<N, T>>
\* more than one thread: only what does not count models
Solve ==
    \E how \in One(Hows), pt \in One(IF T > 1 THEN {"none", "init", "stat", "finish", "model", "after"} ELSE Points),
       k \in One(1..All), lim \in One({0, 1, All - 1, All, All + 1}) :
    IF Uses(how, pt, k) /\ (pt \in {"prop", "undo"} => Top(lim) >= 2) /\ (T = 1 \/ pt # "model" \/ k = 1) THEN
        /\ h' = Append(h, [op |-> "in_solve", how |-> how, pt |-> pt, k |-> k, lim |-> lim,
                           exp |-> IF T > 1 /\ pt = "model" /\ ~pend THEN [Expect(how, pt, k, lim) EXCEPT !.m = Rng(1, All), !.y = [any |-> TRUE]] ELSE Expect(how, pt, k, lim)])
        /\ pend' = (pt = "after") /\ UNCHANGED <<N, T>>
    ELSE UNCHANGED vars
\* the pigeons: only an interrupt ends this
Hard ==
    \E v \in One({<<"sync", "thread">>, <<"sync", "prop">>, <<"a", "main">>, <<"a", "cancel">>, <<"a", "leave">>, <<"ya", "main">>, <<"ya", "cancel">>, <<"ya", "leave">>, <<"a", "thread">>, <<"a", "prop">>}),
       d \in One({0, 1, 5, 20}) :
    \* a second interrupt could come too late and end the search after this one
    IF (Lang # "lua" \/ v = <<"sync", "prop">>) /\ (pend => v[2] \in {"cancel", "leave"}) THEN
        /\ h' = Append(h, [op |-> "in_hard", how |-> v[1], via |-> v[2], d |-> d,
                           exp |-> [log |-> IF Lang = "lua" THEN "F" ELSE "SF", res |-> "?i", over |-> TRUE, early |-> IF pend \/ v[2] = "prop" THEN [any |-> TRUE] ELSE FALSE]])
        /\ pend' = FALSE /\ UNCHANGED <<N, T>>
    ELSE UNCHANGED vars
Plain == /\ h' = Append(h, [op |-> "in_solve", how |-> "sync", pt |-> "none", k |-> 1, lim |-> 0, exp |-> Expect("sync", "none", 1, 0)])
         /\ pend' = FALSE /\ UNCHANGED <<N, T>>
Next ==
    IF h = <<>> THEN New
    ELSE IF Len(h) >= Depth THEN UNCHANGED vars
    ELSE IF Len(h) >= Depth - 2 THEN Plain
    ELSE IF Ex THEN (IF Len(h) = 1 THEN Interrupt \/ Solve ELSE IF pend THEN Solve ELSE Plain)
    ELSE \E x \in {RandomElement(1..10)} : IF x <= 2 /\ ~pend THEN Interrupt ELSE IF x <= 4 THEN Hard ELSE Solve
Init == h = <<>> /\ N = 0 /\ T = 1 /\ pend = FALSE
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------ properties
TypeOK == N \in 0..4 /\ T \in 1..2 /\ pend \in BOOLEAN
\* the last search of a behaviour is never disturbed by what came before
Recovers == Len(h) = Depth => h[Depth].exp.res = "Se" /\ h[Depth].exp.m = All
Emit == Len(h) < Depth \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
