-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* The configuration tree (C16).  The state maps option paths to values;    *)
(* a write changes that option only, an invalid write changes nothing, an   *)
(* array of options is also reached as its first element, and the tester's  *)
(* options exist after the first of them is written.  Every option can be   *)
(* read on every route; the number of models of the next search obeys the   *)
(* configuration.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth
VARIABLES h, n, N, st
vars == <<h, n, N, st>>
One(S) == {RandomElement(S)}

SolverKeys == {"seed", "heuristic", "sign_def", "rand_freq", "restarts"}
TopKeys == {"stats", "share", "learn_explicit"}
SolveKeys == {"models", "project", "opt_mode", "enum_mode", "solve_limit"}
AspKeys == {"eq", "backprop", "trans_ext"}
Top == {<<k>> : k \in TopKeys}
Slv == {<<"solve", k>> : k \in SolveKeys}
AspP == {<<"asp", k>> : k \in AspKeys}
Sol(m) == {<<"solver", ToString(i), k>> : i \in 0..(m - 1), k \in SolverKeys}
Tst == {<<"tester", "solver", "0", k>> : k \in SolverKeys} \cup {<<"tester", "share">>}
Paths(m) == Top \cup Slv \cup AspP \cup Sol(m) \cup Tst
Last1(p) == p[Len(p)]

Init0(p) ==
    LET k == Last1(p) IN
    IF p[1] = "tester" THEN "unset"
    ELSE CASE k = "stats" -> "0" [] k = "share" -> "auto" [] k = "learn_explicit" -> "0"
           [] k = "models" -> "-1" [] k = "project" -> "no" [] k = "opt_mode" -> "opt" [] k = "enum_mode" -> "auto" [] k = "solve_limit" -> "umax,umax"
           [] k = "eq" -> "5" [] k = "backprop" -> "0" [] k = "trans_ext" -> "no"
           [] k = "seed" -> "1" [] k = "sign_def" -> "asp" [] k = "rand_freq" -> "0"
           [] k = "heuristic" -> (CASE p[2] = "0" -> "vsids,92" [] p[2] = "1" -> "vsids,0" [] OTHER -> "berkmin,0")
           [] k = "restarts" -> (CASE p[2] = "0" -> "l,60" [] p[2] = "1" -> "d,100,0.7,0" [] OTHER -> "x,100,1.5,0")
TesterInit(k) == CASE k = "seed" -> "1" [] k = "sign_def" -> "asp" [] k = "rand_freq" -> "0" [] k = "heuristic" -> "auto,0" [] k = "restarts" -> "x,100,1.5,0" [] OTHER -> "auto"
\* <<written, read>>; "bad": rejected
Same(S) == {<<x, x>> : x \in S}
Values(k) ==
    CASE k = "stats" -> Same({"0", "1", "2"}) \cup {<<"x", "bad">>, <<"", "bad">>}
      [] k = "share" -> Same({"no", "auto", "all", "problem", "learnt"}) \cup {<<"some", "bad">>}
      [] k = "learn_explicit" -> Same({"0", "1"}) \cup {<<"yes", "1">>}
      [] k = "models" -> Same({"0", "1", "2", "3", "5", "-1"}) \cup {<<"007", "7">>, <<"abc", "bad">>, <<"", "bad">>, <<" 2", "2">>}
      [] k = "project" -> {<<"no", "no">>, <<"show", "show,0">>, <<"defined", "bad">>}
      [] k = "opt_mode" -> Same({"opt", "enum", "optN", "ignore", "opt,3", "enum,5,6"}) \cup {<<"foo", "bad">>}
      [] k = "enum_mode" -> Same({"auto", "bt", "record"}) \cup {<<"Record!", "bad">>}
      [] k = "solve_limit" -> {<<"5000,6000", "5000,6000">>, <<"umax,7000", "umax,7000">>, <<"1234567", "1234567,umax">>, <<"x", "bad">>}
      [] k = "eq" -> Same({"0", "1", "5", "12"}) \cup {<<"q", "bad">>}
      [] k = "backprop" -> Same({"0", "1"}) \cup {<<"yes", "1">>}
      [] k = "trans_ext" -> Same({"no", "all", "choice", "dynamic"}) \cup {<<"maybe", "bad">>}
      [] k = "seed" -> Same({"0", "3", "99999"}) \cup {<<"4294967295", "umax">>} \cup {<<"-", "bad">>, <<"x4", "bad">>}
      [] k = "heuristic" -> {<<"vsids", "vsids,0">>, <<"vmtf", "vmtf,0">>, <<"berkmin", "berkmin,0">>, <<"domain", "domain,0">>, <<"vsids,95", "vsids,95">>, <<"none", "none,0">>, <<"best", "bad">>}
      [] k = "sign_def" -> Same({"pos", "neg", "rnd", "asp"}) \cup {<<"+", "bad">>}
      [] k = "rand_freq" -> Same({"0.5", "0.25", "1"}) \cup {<<"2", "bad">>}
      [] k = "restarts" -> {<<"no", "0">>, <<"l,100", "l,100">>, <<"l,7", "l,7">>, <<"l,", "bad">>}
Names(p) == CASE p = <<>> -> <<"tester", "solve", "asp", "solver", "configuration", "share", "learn_explicit", "sat_prepro", "stats", "parse_ext", "parse_maxsat">>
              [] p = <<"solve">> -> <<"solve_limit", "parallel_mode", "global_restarts", "distribute", "integrate", "enum_mode", "project", "models", "opt_mode">>
              [] p = <<"asp">> -> <<"trans_ext", "eq", "backprop", "supp_models", "no_ufs_check", "no_gamma", "eq_dfs", "dlp_old_map">>
              [] p = <<"tester">> -> <<"solver", "configuration", "share", "learn_explicit", "sat_prepro">>
              [] OTHER -> <<"opt_strategy", "opt_usc_shrink", "opt_heuristic", "restart_on_model", "lookahead", "heuristic", "init_moms", "score_res", "score_other", "sign_def", "sign_fix", "berk_huang", "vsids_acids", "vsids_progress", "nant", "dom_mod", "save_progress", "init_watches", "update_mode", "acyc_prop", "seed", "no_lookback", "forget_on_step", "strengthen", "otfs", "update_lbd", "update_act", "reverse_arcs", "contraction", "loops", "partial_check", "sign_def_disj", "rand_freq", "rand_prob", "restarts", "reset_restarts", "local_restarts", "counter_restarts", "block_restarts", "shuffle", "deletion", "del_grow", "del_cfl", "del_init", "del_estimate", "del_max", "del_glue", "del_on_restart">>
Desc == {<<<<"tester">>, "Tester Options">>, <<<<"solve">>, "Solve Options">>, <<<<"asp">>, "Asp Options">>, <<<<"solver">>, "Solver Options">>,
         <<<<"solve", "models">>, "Compute at most %A models (0 for all)\n">>, <<<<"solver", "seed">>, "Set random number generator's seed to %A">>,
         <<<<"solver", "0", "seed">>, "Set random number generator's seed to %A">>, <<<<"learn_explicit">>, "Do not use Short Implication Graph for learning">>,
         <<<<"stats">>, "Enable {1=basic|2=full} statistics (<t> for tester)">>, <<<<"tester", "solver", "seed">>, "Set random number generator's seed to %A">>}
Err(k) == IF Lang = "py" THEN [error |-> k] ELSE [error |-> "error"]
Push(s, e) == h' = Append(h, s @@ [exp |-> e])
Has(p) == p[1] # "tester" \/ st[<<"tester", "share">>] # "unset"
\* an array stands for its first element
Routes(p) == {p} \cup (IF Len(p) > 2 /\ p[Len(p) - 1] = "0" THEN {SubSeq(p, 1, Len(p) - 2) \o <<Last1(p)>>} ELSE {})
Styles == {"attr", "get", "iter"}

Set == \E p \in One(Paths(N)) : \E v \in One(Values(Last1(p))) : \E q \in One(Routes(p)) : \E sty \in One(Styles) :
       \* the tester's array is empty before the first write
       LET r == IF Has(p) THEN q ELSE IF p[2] = "share" THEN p ELSE <<"tester", "solver", Last1(p)>> IN
       /\ Push([op |-> "c_set", path |-> r, style |-> sty, val |-> v[1]], IF v[2] = "bad" THEN Err("RuntimeError") ELSE "ok")
       /\ st' = IF v[2] = "bad" THEN (IF Has(p) THEN st ELSE [q2 \in DOMAIN st |-> IF q2[1] = "tester" THEN TesterInit(Last1(q2)) ELSE st[q2]])
                ELSE [q2 \in DOMAIN st |-> IF q2 = p THEN v[2] ELSE IF q2[1] = "tester" /\ p[1] = "tester" /\ ~Has(p) THEN TesterInit(Last1(q2)) ELSE st[q2]]
Get == \E p \in One(Paths(N)) : \E q \in One(Routes(p)) : \E sty \in One(Styles) :
       /\ (IF Has(p) THEN TRUE ELSE p[2] = "share")
       /\ Push([op |-> "c_get", path |-> q, style |-> sty], st[p]) /\ UNCHANGED st
\* everything
Dump == \E sty \in One(Styles) :
        LET ps == SetToSeq({p \in Paths(N) : Has(p)})
        IN Push([op |-> "c_dump", paths |-> ps, style |-> sty], [i \in 1..Len(ps) |-> st[ps[i]]]) /\ UNCHANGED st
\* structure
Keys == \E p \in One({<<>>, <<"solve">>, <<"asp">>, <<"tester">>, <<"solver">>, <<"solver", "0">>, <<"tester", "solver">>}) :
        Push([op |-> "c_keys", path |-> p], Names(p)) /\ UNCHANGED st
Describe == \E d \in One(Desc) : Push([op |-> "c_desc", path |-> d[1]], d[2]) /\ UNCHANGED st
Size == \E p \in One({<<"solver">>, <<"tester", "solver">>, <<"solve">>, <<>>, <<"solver", "0">>}) :
        LET arr == p \in {<<"solver">>, <<"tester", "solver">>}
        IN /\ (~arr => Lang # "cc")
           /\ Push([op |-> "c_size", path |-> p], [size |-> IF p = <<"solver">> THEN N ELSE IF arr /\ Has(<<"tester", "x">>) THEN 1 ELSE 0,
                                                   array |-> IF Lang = "lua" THEN "none" ELSE arr])
           /\ UNCHANGED st
Kind == /\ Lang = "cc"
        /\ \E p \in One({<<>>, <<"solve">>, <<"solver">>, <<"solver", "0">>, <<"stats">>, <<"solve", "models">>, <<"tester", "solver">>, <<"tester", "share">>}) :
           LET val == Last1(<<"x">> \o p) \in {"stats", "models", "share"}
           IN Push([op |-> "c_kind", path |-> p], [map |-> ~val, array |-> p \in {<<"solver">>, <<"tester", "solver">>}, value |-> val,
                   assigned |-> IF ~val THEN "none" ELSE IF p[1] = "tester" THEN Has(p) ELSE TRUE])
        /\ UNCHANGED st
\* what does not exist
Bad == /\ UNCHANGED st
       /\ \/ \E p \in One({<<"nope">>, <<"solve", "Models">>, <<"solver", "models">>, <<"solver", "0", "model">>, <<"asp", "eqs">>, <<"stats2">>}) :
             \/ Push([op |-> "c_get", path |-> p, style |-> "attr"], IF Lang = "lua" THEN "unset" ELSE Err("AttributeError"))
             \/ Push([op |-> "c_set", path |-> p, style |-> "attr", val |-> "1"], Err("AttributeError"))
             \/ Push([op |-> "c_desc", path |-> p], Err("RuntimeError"))
          \/ /\ Lang # "lua"
             /\ \E i \in One(IF Lang = "cc" THEN {64, 65, 100} ELSE {N, N + 1, N + 7, -1, -2, -N}) :
                /\ (Lang = "cc" => i >= 0) /\ Push([op |-> "c_at", path |-> <<"solver">>, i |-> i], Err("IndexError"))
          \/ Lang # "lua" /\ Push([op |-> "c_at", path |-> <<"solve">>, i |-> 0], Err("IndexError"))
          \/ Push([op |-> "c_set", path |-> <<"solve">>, style |-> "attr", val |-> "1"], Err("RuntimeError"))
Expected ==
    LET m == st[<<"solve", "models">>] IN
    CASE m = "-1" -> 1 [] m = "0" -> 4 [] m = "1" -> 1 [] m = "2" -> 2 [] m = "3" -> 3 [] OTHER -> 4
Search == Push([op |-> "c_solve"], Expected) /\ UNCHANGED st

Init == /\ n = 0 /\ N \in One(1..3) /\ st = [p \in Paths(N) |-> Init0(p)] /\ h = <<[op |-> "c_new", n |-> N]>>
Next == \/ /\ n < Depth /\ n' = n + 1 /\ UNCHANGED N
           /\ \E k \in One(1..16) :
              IF k <= 6 THEN Set ELSE IF k <= 8 THEN (Get \/ UNCHANGED <<h, st>>) ELSE IF k <= 10 THEN Dump ELSE IF k = 11 THEN Keys
              ELSE IF k = 12 THEN Describe ELSE IF k = 13 THEN (Size \/ UNCHANGED <<h, st>>) ELSE IF k = 14 THEN (Kind \/ UNCHANGED <<h, st>>) ELSE IF k = 15 THEN Bad ELSE Search
        \/ n >= Depth /\ n' = Depth + 1 /\ UNCHANGED <<h, N, st>>
Emit == n # Depth + 1 \/ CSVWrite("%1$s", <<ToJson(h \o <<[op |-> "c_dump", paths |-> SetToSeq({p \in Paths(N) : Has(p)}), style |-> "iter",
                                                          exp |-> LET ps == SetToSeq({p \in Paths(N) : Has(p)}) IN [i \in 1..Len(ps) |-> st[ps[i]]]], [op |-> "end"]>>)>>, IOEnv.OUT)
=============================================================================
