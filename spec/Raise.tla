-------------------------------- MODULE Raise -------------------------------
(***************************************************************************)
(* Exceptions raised by the user's callbacks (C06).  A control with an      *)
(* observer, a propagator, a grounding context and a model handler is used  *)
(* for a sequence of operations.  In each operation one callback may be     *)
(* armed with an exception.  The specification says which callbacks an      *)
(* operation reaches: if the armed one is reached, the operation stops and  *)
(* exactly that exception reaches whoever started it; otherwise, and in all *)
(* later operations, nothing is raised.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Lang, Depth
VARIABLES h, n, open, based, val, dirty
vars == <<h, n, open, based, val, dirty>>
One(S) == {RandomElement(S)}
Kinds == CASE Lang = "py" -> {"E1", "ValueError", "MemoryError", "RuntimeError", "ZeroDivisionError", "OSError", "nested"}
           [] Lang = "cc" -> {"E1", "runtime_error", "logic_error", "bad_alloc", "int", "out_of_range", "nested"}
           [] OTHER -> {"error", "nested"}
Msgs == {"it failed", "100%", "%s%n%d", "line 1\nline 2", "quote \" and \\", "0123456789012345678901234567890123456789"}
\* an engine error inside a callback is raised there by the binding
EngineError == CASE Lang = "py" -> [exc |-> "RuntimeError", msg |-> [any |-> 1]]
                 [] Lang = "cc" -> [exc |-> "runtime_error", msg |-> [any |-> 1]]
                 [] OTHER -> [exc |-> "error", msg |-> [any |-> 1]]
Exc(k, m) == CASE k = "nested" -> EngineError
               [] Lang = "lua" -> [exc |-> "error", msg |-> [sub |-> m]]
               [] k \in {"bad_alloc", "int"} -> [exc |-> k, msg |-> [any |-> 1]]
               [] OTHER -> [exc |-> k, msg |-> m]

Observed == {"rule", "output_atom", "begin_step"}
\* callbacks reached by an operation
GroundReach(base) == {"f", "rule", "output_atom"} \cup (IF base THEN {"external"} ELSE {}) \cup (IF open THEN {} ELSE {"begin_step"})
\* (after a failure while grounding, the program may be anything)
SolveReach == {"check", "init"} \cup (IF dirty THEN {} ELSE {"propagate", "decide", "end_step"})
All == {"f", "rule", "output_atom", "begin_step", "end_step", "external", "propagate", "check", "decide", "init", "on_model", "minimize"}
\* (callbacks that an operation may or may not reach are not armed in it)
GroundMiss == {"end_step", "propagate", "check", "decide", "init", "on_model", "minimize"}
SolveMiss == {"f", "minimize"}
BackMiss == {"f", "end_step", "propagate", "check", "decide", "init", "on_model"}
\* async: the engine turns exceptions of other threads into runtime errors with the message
Out(async, k, m, ok) ==
    IF async /\ Lang = "py" THEN [oneof |-> <<Exc(k, m), [exc |-> "RuntimeError", msg |-> IF k = "nested" THEN [any |-> 1] ELSE m]>>] ELSE Exc(k, m)
Step(s, reach, miss, async, ok, mess) ==
    \E r \in One(1..10) : \E k \in One(Kinds) : \E m \in One(Msgs) : \E a \in One(reach) : \E z \in One(miss) : \E sw \in One(1..4) :
    LET raised == [arm |-> a, kind |-> k, msg |-> m, swallow |-> FALSE]
    IN CASE r <= 4 /\ ~(mess /\ dirty) -> h' = Append(h, raised @@ s @@ [exp |-> Out(async, k, m, ok)]) /\ dirty' = (dirty \/ mess \/ a = "end_step")
         [] r = 5 -> h' = Append(h, [raised EXCEPT !.arm = z] @@ s @@ [exp |-> ok]) /\ UNCHANGED dirty
         \* a callback that handles an engine error itself
         [] r = 6 -> h' = Append(h, [raised EXCEPT !.kind = "nested", !.swallow = TRUE] @@ s @@ [exp |-> ok]) /\ UNCHANGED dirty
         [] OTHER -> h' = Append(h, [raised EXCEPT !.arm = ""] @@ s @@ [exp |-> ok]) /\ UNCHANGED dirty

Ground == /\ \/ ~based /\ Step([op |-> "r_ground", part |-> "base", i |-> n], GroundReach(TRUE), GroundMiss, FALSE, "ok", TRUE)
             \/ based /\ Step([op |-> "r_ground", part |-> "q", i |-> n], GroundReach(FALSE), GroundMiss, FALSE, "ok", TRUE)
          /\ based' = TRUE /\ open' = TRUE /\ UNCHANGED val
Backend == /\ based /\ Step([op |-> "r_backend"], {"rule", "external", "minimize"}, BackMiss, FALSE, "ok", TRUE)
           /\ open' = TRUE /\ UNCHANGED <<based, val>>
\* statements given to the backend one by one: what one of them raised is raised by it alone
BackOps == {"rule", "external", "minimize", "weight_rule"} \cup IF Lang = "lua" THEN {} ELSE {"project", "assume", "heuristic", "acyc_edge"}
RECURSIVE Items(_)
Items(z) == IF z = 0 THEN <<>> ELSE
    Append(Items(z - 1), [f |-> RandomElement(BackOps), on |-> RandomElement(1..2) = 1, kind |-> RandomElement(Kinds), msg |-> RandomElement(Msgs), swallow |-> FALSE])
BackSeq == /\ based
           /\ \E it \in {Items(RandomElement(2..5))} :
              h' = Append(h, [op |-> "r_bseq", items |-> it, exp |-> [i \in 1..Len(it) |-> IF it[i].on THEN Exc(it[i].kind, it[i].msg) ELSE [exc |-> "ok", msg |-> ""]]])
           /\ dirty' = TRUE /\ open' = TRUE /\ UNCHANGED <<based, val>>
External == /\ based /\ ~dirty /\ open
            /\ Step([op |-> "r_external", v |-> ~val], {"external"}, {"f", "check", "on_model", "init"}, FALSE, "ok", TRUE)
            /\ val' = ~val /\ UNCHANGED <<based, open>>
Modes == CASE Lang = "lua" -> {"sync", "yield"} [] OTHER -> {"sync", "yield", "async", "ayield"}
Solve == /\ based /\ open
         /\ \E md \in One(Modes) : \E ct \in One({"out", "in"}) :
            Step([op |-> "r_solve", mode |-> md, catch |-> ct],
                 SolveReach \cup (IF Lang = "lua" /\ md = "yield" THEN {} ELSE {"on_model"}), SolveMiss, md \in {"async", "ayield"}, "ok", FALSE)
         /\ open' = FALSE /\ UNCHANGED <<based, val>>
Parse == /\ Lang # "lua"
         /\ Step([op |-> "r_parse", i |-> n % 3], {"statement"}, {"f", "rule", "on_model"}, FALSE, "ok", FALSE)
         /\ UNCHANGED <<based, open, val>>
\* engine errors between the operations
Bad == \E w \in One({"add", "parse", "load", "unknown"}) :
       /\ h' = Append(h, [op |-> "r_bad", what |-> w, exp |-> IF Lang = "cc" /\ w = "unknown" THEN [exc |-> "logic_error", msg |-> [any |-> 1]] ELSE EngineError]) /\ UNCHANGED <<dirty, based, open, val>>
Script == /\ Lang = "py"
          /\ \E k \in One({"E1", "ValueError", "MemoryError"}) : \E m \in One(Msgs \ {"line 1\nline 2"}) :
             h' = Append(h, [op |-> "r_script", kind |-> k, msg |-> m, i |-> n, exp |-> [exc |-> "RuntimeError", msg |-> [sub |-> k \o ": " \o m]]])
          /\ UNCHANGED <<dirty, based, open, val>>
Transform == /\ Lang = "py"
             /\ \E k \in One({"E1", "ValueError", "MemoryError"}) : \E m \in One(Msgs) :
                h' = Append(h, [op |-> "r_transform", kind |-> k, msg |-> m, exp |-> [exc |-> k, msg |-> m]])
             /\ UNCHANGED <<dirty, based, open, val>>

Init == h = <<[op |-> "r_new"]>> /\ n = 0 /\ open = FALSE /\ based = FALSE /\ val = FALSE /\ dirty = FALSE
Next == \/ /\ n < Depth /\ n' = n + 1
           /\ \E k \in One(1..12) :
              IF ~based THEN Ground
              ELSE IF k <= 3 /\ ~dirty THEN Ground
              ELSE IF k = 4 /\ ~dirty THEN (Backend \/ BackSeq)
              ELSE IF k = 5 /\ ~dirty /\ open THEN External
              ELSE IF k = 6 /\ Lang # "lua" THEN Parse
              ELSE IF k = 7 THEN Bad
              ELSE IF k = 8 /\ Lang = "py" THEN (Script \/ Transform)
              ELSE IF open THEN Solve
              ELSE Ground
        \/ n >= Depth /\ n' = Depth + 1 /\ UNCHANGED <<h, open, based, val, dirty>>
Emit == n # Depth + 1 \/ CSVWrite("%1$s", <<ToJson(Append(h, [op |-> "end"]))>>, IOEnv.OUT)
=============================================================================
