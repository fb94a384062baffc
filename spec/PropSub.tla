------------------------------- MODULE PropSub -------------------------------
(***************************************************************************)
(* Propagators that implement only some of the methods (C07).  A propagator *)
(* that adds no constraints changes nothing, whichever methods it has: the  *)
(* searches find all models, and the methods it has are called when there   *)
(* is a reason to: init and check always, propagate and undo if there are   *)
(* watches, decide if something has to be decided.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Depth
VARIABLES h, n
vars == <<h, n>>
Methods == {"init", "propagate", "undo", "check", "decide"}
\* watches can only be added by init; Python's propagators may be derived from a class that has all methods
Props == {p \in [has : SUBSET Methods, watch : BOOLEAN, base : BOOLEAN] : p.watch => "init" \in p.has}
Called(p) == (p.has \cap {"init", "check", "decide"}) \cup (IF p.watch THEN p.has \cap {"propagate", "undo"} ELSE {})
P(p) == [has |-> SetToSeq(p.has), watch |-> p.watch, base |-> p.base]
\* (undo: only after propagate or check at a level, and certainly if a watched literal has been assigned there)
E(p) == [must |-> SetToSeq(Called(p)), may |-> SetToSeq(Called(p) \cup (p.has \cap {"undo"}))]
\* one propagator or two; decide stops at the first that decides, which none does
Run(ps, t) == [op |-> "sub_run", props |-> [i \in DOMAIN ps |-> P(ps[i])], threads |-> t, runs |-> 2,
               exp |-> [models |-> <<4, 4>>, called |-> [i \in DOMAIN ps |-> E(ps[i])]]]
Init == h = <<>> /\ n = 0
Pick == (\E p \in Props : h' = <<Run(<<p>>, 1)>>)
        \/ (Depth > 1 /\ \E p \in Props, q \in Props : h' = <<Run(<<p, q>>, 1)>>)
Next == \/ n = 0 /\ n' = 1 /\ Pick
        \/ n = 1 /\ UNCHANGED vars
Emit == n # 1 \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
