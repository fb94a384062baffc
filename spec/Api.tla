-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The interface between the bindings and the engine as a function: every  *)
(* operation of the Python, C++ and Lua classes, which engine function it  *)
(* has to call with which arguments, and what the user has to get for a    *)
(* given answer (C24) or a given failure (C06) of that function.           *)
(* The state machine visits the places where operations are available      *)
(* (control, backend, model, handle, propagator callbacks) and performs    *)
(* random operations with random arguments, answers and failures there.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt, Functions
CONSTANTS Lang, Faults, Depth   \* Faults: probability of a failure in percent
VARIABLES h, n, sc, os
vars == <<h, n, sc, os>>
One(S) == {RandomElement(S)}
Py == Lang = "py"
Cc == Lang = "cc"
Lua == Lang = "lua"

-----------------------------------------------------------------------------
(* random values *)
Ints == {0, 1, 2, 3, 7, 100, 0 - 1, 0 - 5, 2147483647, 0 - 2147483647}
NatInts == {0, 1, 2, 5, 17, 1000000, 2147483647}
LitSet == {1, 2, 3, 4, 9, 77, 1000, 2147483, 0 - 1, 0 - 2, 0 - 3, 0 - 8, 0 - 77, 0 - 50000}
AtomSet == {1, 2, 3, 4, 5, 9, 17, 400, 70000}
Strs == {"a", "base", "p", "q r", "x.lp", "/tmp/some dir/f.lp", "", "100%", "50%s%d%n", "a\"b", "tab\there", "a,b(c)"}
SymSet == {"1", "0", "-7", "2147483647", "a", "-a", "f(1,x)", "-f(g(2),\"s\")", "\"str\"", "\"\"", "()", "(1,)", "(a,(b,c))", "#inf", "#sup", "f(-3)"}
BigNums == {[num |-> "9223372036854775807"], [num |-> "-9223372036854775808"], [num |-> "0"], [num |-> "-1"], [num |-> "4294967296"], [num |-> "123456789012"]}
BigNats == {[num |-> "18446744073709551"], [num |-> "0"], [num |-> "1"], [num |-> "4294967296"], [num |-> "4503599627370496"]}
Seqn(S, k) == LET m == RandomElement(0..k) IN [i \in 1..m |-> RandomElement(S)]
WLit(d) == <<RandomElement(LitSet), RandomElement(Ints)>>
\* every value an operation may need, drawn once per operation
Draw(d) == [i1 |-> RandomElement(Ints), i2 |-> RandomElement(Ints), i3 |-> RandomElement(Ints), n1 |-> RandomElement(NatInts), n2 |-> RandomElement(NatInts),
            n3 |-> RandomElement(NatInts), l1 |-> RandomElement(LitSet), l2 |-> RandomElement(LitSet), at |-> RandomElement(AtomSet), at2 |-> RandomElement(AtomSet),
            ls |-> Seqn(LitSet, 4), ls2 |-> Seqn(LitSet, 3), as |-> Seqn(AtomSet, 4), as2 |-> Seqn(AtomSet, 3),
            ws |-> [i \in 1..RandomElement(0..3) |-> WLit(i)], ids |-> Seqn(NatInts, 4), ids2 |-> Seqn(NatInts, 3),
            y |-> RandomElement(SymSet), ys |-> Seqn(SymSet, 4), ys2 |-> Seqn(SymSet, 3), s |-> RandomElement(Strs), s2 |-> RandomElement(Strs), ss |-> Seqn(Strs, 3),
            b1 |-> RandomElement(BOOLEAN), b2 |-> RandomElement(BOOLEAN), b3 |-> RandomElement(BOOLEAN), b4 |-> RandomElement(BOOLEAN),
            k |-> RandomElement(0..1000), big |-> RandomElement(BigNums), bigs |-> Seqn(BigNums, 4), nat |-> RandomElement(BigNats),
            atn |-> RandomElement({"a(1)", "a(2)", "a(3)"}), atns |-> Seqn({"a(1)", "a(2)", "a(3)"}, 3), is |-> Seqn(Ints, 4),
            tm |-> RandomElement(1..20), b5 |-> RandomElement(BOOLEAN), res |-> RandomElement({0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14})]
Neg(s) == [i \in 1..Len(s) |-> 0 - s[i]]
Bit(b, v) == IF b THEN v ELSE 0

-----------------------------------------------------------------------------
(* An operation: method and arguments; engine function and the arguments it *)
(* has to get; the engine's answer (out parameters, "return"); and what the *)
(* user gets.                                                               *)
Op(m, a, f, ain, out, res) == [m |-> m, a |-> a, calls |-> <<[f |-> f, a |-> ain]>>, script |-> <<[f |-> f, answer |-> out]>>, res |-> res, fail |-> TRUE]
\* for functions that cannot fail
Sure(m, a, f, ain, out, res) == [Op(m, a, f, ain, out, res) EXCEPT !.fail = FALSE]
NoOut == [x |-> 0]
NoArg == [any |-> 1]     \* (no requirement)
None == "null"
\* threads and positions are counted from one in Lua
T(t) == IF Lua THEN t + 1 ELSE t
TV == <<"u", "t", "f">>           \* 0 free, 1 true, 2 false
ExtT == <<"u", "t", "f", "r">>
HeuT == <<"level", "sign", "factor", "init", "true", "false">>
Cmd(m, a, f, ain) == Op(m, a, f, ain, NoOut, None)

Backend(r) ==
    [add_rule |-> Cmd("add_rule", <<r.b1, r.as, r.ls>>, "backend_rule", [choice |-> r.b1, head |-> r.as, body |-> r.ls]),
     add_rule_d |-> Cmd("add_rule", <<None, r.as, r.ls>>, "backend_rule", [choice |-> FALSE, head |-> r.as, body |-> r.ls]),
     add_rule_h |-> Cmd("add_rule", <<None, r.as, None>>, "backend_rule", [choice |-> FALSE, head |-> r.as, body |-> <<>>]),
     add_weight_rule |-> Cmd("add_weight_rule", <<r.b1, r.as, r.i1, r.ws>>, "backend_weight_rule",
                             [choice |-> r.b1, head |-> r.as, lower_bound |-> r.i1, body |-> r.ws]),
     add_weight_rule_d |-> Cmd("add_weight_rule", <<None, r.as, r.i1, r.ws>>, "backend_weight_rule",
                             [choice |-> FALSE, head |-> r.as, lower_bound |-> r.i1, body |-> r.ws]),
     add_minimize |-> Cmd("add_minimize", <<r.i1, r.ws>>, "backend_minimize", [priority |-> r.i1, literals |-> r.ws]),
     add_external |-> LET v == 1 + (r.k % 4) IN Cmd("add_external", <<r.at, ExtT[v]>>, "backend_external", [atom |-> r.at, type |-> v - 1]),
     add_external_d |-> Cmd("add_external", <<r.at, None>>, "backend_external", [atom |-> r.at, type |-> 2]),
     add_atom |-> Op("add_atom", <<r.y>>, "backend_add_atom", [symbol |-> r.y], [atom |-> r.at], r.at),
     add_atom_d |-> Op("add_atom", <<None>>, "backend_add_atom", [symbol |-> None], [atom |-> r.at], r.at)]
BackendFull(r) ==
    [add_project |-> Cmd("add_project", <<r.as>>, "backend_project", [atoms |-> r.as]),
     add_assume |-> Cmd("add_assume", <<r.ls>>, "backend_assume", [literals |-> r.ls]),
     add_heuristic |-> LET v == 1 + (r.k % 6) IN
         Cmd("add_heuristic", <<r.at, HeuT[v], r.i1, r.n1, r.ls>>, "backend_heuristic",
             [atom |-> r.at, type |-> v - 1, bias |-> r.i1, priority |-> r.n1, condition |-> r.ls]),
     add_acyc_edge |-> Cmd("add_acyc_edge", <<r.i1, r.i2, r.ls>>, "backend_acyc_edge", [node_u |-> r.i1, node_v |-> r.i2, condition |-> r.ls]),
     term_number |-> Op("add_theory_term_number", <<r.i1>>, "backend_theory_term_number", [number |-> r.i1], [term_id |-> r.n1], r.n1),
     term_string |-> Op("add_theory_term_string", <<r.s>>, "backend_theory_term_string", [string |-> r.s], [term_id |-> r.n1], r.n1),
     term_seq |-> LET v == 1 + (r.k % 3) IN
         Op("add_theory_term_sequence", <<(<<"tuple", "set", "list">>)[v], r.ids>>, "backend_theory_term_sequence",
            [type |-> v - 1, arguments |-> r.ids], [term_id |-> r.n1], r.n1),
     term_fun |-> Op("add_theory_term_function", <<r.s, r.ids>>, "backend_theory_term_function", [name |-> r.s, arguments |-> r.ids], [term_id |-> r.n1], r.n1),
     term_sym |-> Op("add_theory_term_symbol", <<r.y>>, "backend_theory_term_symbol", [symbol |-> r.y], [term_id |-> r.n1], r.n1),
     element |-> Op("add_theory_element", <<r.ids, r.ls>>, "backend_theory_element", [tuple |-> r.ids, condition |-> r.ls], [element_id |-> r.n1], r.n1),
     atom |-> Op("add_theory_atom", <<r.n1, r.ids, r.at>>, "backend_theory_atom",
                 [atom |-> r.at, term_id |-> r.n1, elements |-> r.ids], [atom_id |-> r.at2], r.at2),
     atom_0 |-> Op("add_theory_atom", <<r.n1, r.ids, 0>>, "backend_theory_atom",
                 [atom |-> 0, term_id |-> r.n1, elements |-> r.ids], [atom_id |-> 0], 0),
     atom_d |-> Op("add_theory_atom", <<r.n1, r.ids, None>>, "backend_theory_atom",
                 [atom |-> [num |-> "4294967295"], term_id |-> r.n1, elements |-> r.ids], [atom_id |-> r.at2], r.at2),
     guard |-> Op("add_theory_atom_with_guard", <<r.n1, r.ids, r.s, r.n2, r.at>>, "backend_theory_atom_with_guard",
                 [atom |-> r.at, term_id |-> r.n1, elements |-> r.ids, operator_name |-> r.s, right_hand_side_id |-> r.n2], [atom_id |-> r.at2], r.at2),
     guard_d |-> Op("add_theory_atom_with_guard", <<r.n1, r.ids, r.s, r.n2, None>>, "backend_theory_atom_with_guard",
                 [atom |-> [num |-> "4294967295"], term_id |-> r.n1, elements |-> r.ids, operator_name |-> r.s, right_hand_side_id |-> r.n2],
                 [atom_id |-> r.at2], r.at2)]

Sub(seq, f) == [i \in 1..Len(seq) |-> f]
Parts(r) == SubSeq(<<<<r.s, r.ys>>, <<"base", <<>>>>, <<r.s, r.ys2>>, <<r.s2, r.ys>>>>, 1, r.k % 5)
Control(r) ==
    [add |-> Cmd("add", <<r.s, r.ss, r.s2>>, "control_add", [name |-> r.s, parameters |-> r.ss, program |-> r.s2]),
     load |-> Cmd("load", <<r.s>>, "control_load", [file |-> r.s]),
     ground |-> LET p == Parts(r) IN Cmd("ground", <<p, FALSE>>, "control_ground", [parts |-> p, ground_callback |-> FALSE]),
     cleanup |-> Cmd("cleanup", <<>>, "control_cleanup", NoArg),
     assign |-> LET v == 1 + (r.k % 3) IN Cmd("assign_external", <<r.l1, TV[v]>>, "control_assign_external", [literal |-> r.l1, value |-> v - 1]),
     assign_s |-> LET v == 1 + (r.k % 3) IN Cmd("assign_external", <<r.atn, TV[v]>>, "control_assign_external", [literal |-> [atom |-> r.atn], value |-> v - 1]),
     release |-> Cmd("release_external", <<r.l1>>, "control_release_external", [literal |-> r.l1]),
     release_s |-> Cmd("release_external", <<r.atn>>, "control_release_external", [literal |-> [atom |-> r.atn]]),
     conflicting |-> Sure("is_conflicting", <<>>, "control_is_conflicting", NoArg, [return |-> r.b1], r.b1),
     get_enum |-> Sure("get_enumeration_assumption", <<>>, "control_get_enable_enumeration_assumption", NoArg, [return |-> r.b1], r.b1),
     get_clean |-> Sure("get_cleanup", <<>>, "control_get_enable_cleanup", NoArg, [return |-> r.b1], r.b1),
     set_enum |-> Cmd("set_enumeration_assumption", <<r.b1>>, "control_set_enable_enumeration_assumption", [enable |-> r.b1]),
     set_clean |-> Cmd("set_cleanup", <<r.b1>>, "control_set_enable_cleanup", [enable |-> r.b1]),
     interrupt |-> Sure("interrupt", <<>>, "control_interrupt", NoArg, NoOut, None)]
ControlConst(r) ==
    [get_const |-> [Op("get_const", <<r.s>>, "control_get_const", [name |-> r.s], [symbol |-> r.y], r.y) EXCEPT
                    !.script = @ \o <<[f |-> "control_has_const", answer |-> [exists |-> TRUE], times |-> 0]>>]]
ObsAll == <<"init_program", "begin_step", "end_step", "rule", "weight_rule", "minimize", "project", "output_atom", "output_term", "external", "assume",
            "heuristic", "acyc_edge", "theory_term_number", "theory_term_string", "theory_term_compound", "theory_element", "theory_atom", "theory_atom_with_guard">>
ControlFull(r) ==
    [reg_obs_d |-> Cmd("register_observer", <<None>>, "control_register_observer", [replace |-> FALSE]),
     reg_obs |-> Cmd("register_observer", <<r.b1>>, "control_register_observer", [replace |-> r.b1])]
Back(r) == (<<"reify", "aspif", "smodels">>)[1 + (r.k % 3)]
BackV(r) == CASE r.k % 3 = 0 -> Bit(r.b2, 1) + Bit(r.b3, 2) [] r.k % 3 = 1 -> 4 [] OTHER -> 5
ControlPy(r) ==
    [add1 |-> Cmd("add1", <<r.s2>>, "control_add", [name |-> "base", parameters |-> <<>>, program |-> r.s2]),
     load_aspif |-> Cmd("load_aspif", <<r.ss>>, "control_load_aspif", [files |-> r.ss]),
     ground_c |-> LET p == Parts(r) IN Cmd("ground", <<p, TRUE>>, "control_ground", [parts |-> p, ground_callback |-> TRUE]),
     ground_d |-> Cmd("ground_default", <<>>, "control_ground", [parts |-> <<<<"base", <<>>>>>>, ground_callback |-> FALSE]),
     remove_min |-> Cmd("remove_minimize", <<>>, "control_remove_minimize", NoArg),
     add_proj |-> Cmd("add_project", <<r.as>>, "control_update_project", [atoms |-> r.as, append |-> TRUE]),
     add_proj_s |-> Cmd("add_project", <<r.atns>>, "control_update_project", [atoms |-> IF r.atns = <<>> THEN <<>> ELSE [atoms |-> r.atns], append |-> TRUE]),
     repl_proj |-> Cmd("replace_project", <<r.as>>, "control_update_project", [atoms |-> r.as, append |-> FALSE]),
     rem_proj |-> Cmd("remove_project", <<>>, "control_update_project", [atoms |-> <<>>, append |-> FALSE]),
     \* (an empty list appended removes no projection: the engine gets what the user gave)
     reg_backend |-> Cmd("register_backend", <<Back(r), r.s, r.b1, IF r.k % 3 = 0 THEN r.b2 ELSE None, IF r.k % 3 = 0 THEN r.b3 ELSE None>>,
                         "control_register_backend", [type |-> BackV(r), file |-> r.s, replace |-> r.b1]),
     reg_backend_d |-> Cmd("register_backend", <<Back(r), r.s, None, IF r.k % 3 = 0 THEN r.b2 ELSE None, IF r.k % 3 = 0 THEN r.b3 ELSE None>>,
                         "control_register_backend", [type |-> BackV(r), file |-> r.s, replace |-> FALSE])]
\* the result of a search: satisfiable 1, unsatisfiable 2, exhausted 4, interrupted 8
Res(v) == [sat |-> IF v % 2 = 1 THEN TRUE ELSE IF (v \div 2) % 2 = 1 THEN FALSE ELSE None,
           unsat |-> IF (v \div 2) % 2 = 1 THEN TRUE ELSE IF v % 2 = 1 THEN FALSE ELSE None,
           unknown |-> v % 4 = 0, exh |-> (v \div 4) % 2 = 1, int |-> (v \div 8) % 2 = 1]
Solve(r) ==
    LET v == r.res
        op(m, a, mode, ass, cb) ==
            [m |-> m, a |-> a, fail |-> TRUE,
             calls |-> <<[f |-> "control_solve", a |-> [mode |-> mode, assumptions |-> ass, notify |-> IF cb THEN TRUE ELSE [any |-> 1]]], [f |-> "solve_handle_close", a |-> NoArg]>>,
             script |-> <<[f |-> "control_solve", answer |-> [handle |-> 12345]], [f |-> "solve_handle_get", answer |-> [result |-> v], times |-> 0],
                          [f |-> "solve_handle_close", answer |-> NoOut], [f |-> "solve_handle_wait", answer |-> [result |-> TRUE], times |-> 0],
                          [f |-> "solve_handle_resume", answer |-> NoOut, times |-> 0],
                          [f |-> "solve_handle_model", answer |-> [model |-> None], times |-> 0]>>,
             res |-> Res(v)]
    IN [solve |-> op("solve", <<r.ls>>, 0, r.ls, FALSE), solve_d |-> op("solve", <<None>>, 0, <<>>, FALSE),
        solve_cb |-> op("solve_cb", <<r.ls>>, 0, r.ls, TRUE), solve_y |-> op("solve_yield", <<r.ls>>, 2, r.ls, FALSE),
        solve_a |-> op("solve_async", <<r.ls>>, 1, r.ls, FALSE), solve_ay |-> op("solve_async_yield", <<r.ls>>, 3, r.ls, FALSE)]

MType == <<"stable", "brave", "cautious">>
Show(r) == Bit(r.b1, 4) + Bit(r.b2, 8) + Bit(r.b3, 2) + Bit(r.b4, 16)
Model(r) ==
    [number |-> Op("number", <<>>, "model_number", NoArg, [number |-> r.nat], r.nat),
     thread |-> Op("thread_id", <<>>, "model_thread_id", NoArg, [id |-> r.k], T(r.k)),
     proven |-> Op("optimality_proven", <<>>, "model_optimality_proven", NoArg, [proven |-> r.b1], r.b1),
     type |-> LET v == 1 + (r.k % 3) IN Op("type", <<>>, "model_type", NoArg, [type |-> v - 1], MType[v]),
     contains |-> Op("contains", <<r.y>>, "model_contains", [atom |-> r.y], [contained |-> r.b1], r.b1),
     is_true |-> Op("is_true", <<r.l1>>, "model_is_true", [literal |-> r.l1], [result |-> r.b1], r.b1),
     extend |-> Cmd("extend", <<r.ys>>, "model_extend", [symbols |-> r.ys]),
     cost |-> [Op("cost", <<>>, "model_cost", [size |-> Len(r.bigs)], [costs |-> r.bigs], r.bigs) EXCEPT
               !.script = @ \o <<[f |-> "model_cost_size", answer |-> [size |-> Len(r.bigs)], times |-> 0]>>],
     symbols |-> LET c == r.b5 w == Show(r) + Bit(c, 32) IN
         [Op("symbols", <<r.b1, r.b2, r.b3, r.b4, c>>, "model_symbols", [show |-> w, size |-> Len(r.ys)], [symbols |-> r.ys], r.ys) EXCEPT
          !.calls = <<[f |-> "model_symbols_size", a |-> [show |-> w]]>> \o @,
          !.script = @ \o <<[f |-> "model_symbols_size", answer |-> [size |-> Len(r.ys)]]>>]]
ModelFull(r) ==
    [consequence |-> LET v == 1 + (r.k % 3) IN
         Op("is_consequence", <<r.l1>>, "model_is_consequence", [literal |-> r.l1], [result |-> v - 1], (<<FALSE, TRUE, None>>)[v]),
     priority |-> [Op("priority", <<>>, "model_priority", [size |-> Len(r.is)], [priorities |-> r.is], r.is) EXCEPT
               !.script = @ \o <<[f |-> "model_cost_size", answer |-> [size |-> Len(r.is)], times |-> 0]>>]]
Mctl(r) ==
    [add_clause |-> Cmd("add_clause", <<r.ls>>, "solve_control_add_clause", [clause |-> r.ls])]
MctlNogood(r) ==
    [add_nogood |-> Cmd("add_nogood", <<r.ls>>, "solve_control_add_clause", [clause |-> Neg(r.ls)])]

Handle(r) ==
    [get |-> LET v == r.res IN Op("get", <<>>, "solve_handle_get", NoArg, [result |-> v], Res(v)),
     resume |-> Cmd("resume", <<>>, "solve_handle_resume", NoArg),
     cancel |-> Cmd("cancel", <<>>, "solve_handle_cancel", NoArg),
     \* a core can be asked for at any time
     core |-> Op("core", <<>>, "solve_handle_core", NoArg, [core |-> r.ls], IF Lua /\ r.ls = <<>> THEN [any |-> 1] ELSE r.ls),
     wait |-> Sure("wait", <<r.tm>>, "solve_handle_wait", [timeout |-> [num |-> ToString(r.tm)]], [result |-> r.b1], r.b1),
     wait_d |-> Sure("wait", <<None>>, "solve_handle_wait", [timeout |-> [num |-> "-1"]], [result |-> TRUE], IF Cc THEN None ELSE TRUE)]
HandleFull(r) ==
    [nomodel |-> Op("model", <<>>, "solve_handle_model", NoArg, [model |-> None], None),
     nolast |-> Op("last", <<>>, "solve_handle_last", NoArg, [model |-> None], None),
     \* a model given by the engine is the one the user gets
     last |-> [Op("last_number", <<>>, "solve_handle_last", NoArg, [model |-> 4242], r.nat) EXCEPT
               !.script = @ \o <<[f |-> "model_number", answer |-> [number |-> r.nat], times |-> 0]>>],
     model |-> [Op("model_number", <<>>, "solve_handle_model", NoArg, [model |-> 4242], r.nat) EXCEPT
               !.script = @ \o <<[f |-> "model_number", answer |-> [number |-> r.nat], times |-> 0]>>]]

Mode == <<"none", "total", "fixpoint", "both">>
Wct == <<"equivalence", "right", "left">>   \* engine: 0, 1, -1
WctV == <<0, 1, 0 - 1>>
PInit(r) ==
    [solver_literal |-> Op("solver_literal", <<r.l1>>, "propagate_init_solver_literal", [aspif_literal |-> r.l1], [solver_literal |-> r.l2], r.l2),
     add_watch |-> Cmd("add_watch", <<r.l1, None>>, "propagate_init_add_watch", [solver_literal |-> r.l1]),
     add_watch_t |-> Cmd("add_watch", <<r.l1, T(r.k)>>, "propagate_init_add_watch_to_thread", [solver_literal |-> r.l1, thread_id |-> r.k]),
     add_watch_0 |-> Cmd("add_watch", <<r.l1, T(0)>>, "propagate_init_add_watch_to_thread", [solver_literal |-> r.l1, thread_id |-> 0]),
     threads |-> Sure("number_of_threads", <<>>, "propagate_init_number_of_threads", NoArg, [return |-> r.k], r.k),
     set_mode |-> LET v == 1 + (r.k % 4) IN Sure("set_check_mode", <<Mode[v]>>, "propagate_init_set_check_mode", [mode |-> v - 1], NoOut, None),
     get_mode |-> LET v == 1 + (r.k % 4) IN Sure("get_check_mode", <<>>, "propagate_init_get_check_mode", NoArg, [return |-> v - 1], Mode[v]),
     add_literal |-> Op("add_literal", <<r.b1>>, "propagate_init_add_literal", [freeze |-> r.b1], [result |-> r.l1], r.l1),
     add_literal_d |-> Op("add_literal", <<None>>, "propagate_init_add_literal", [freeze |-> TRUE], [result |-> r.l1], r.l1),
     add_clause |-> Op("add_clause", <<r.ls>>, "propagate_init_add_clause", [clause |-> r.ls], [result |-> r.b1], r.b1),
     weight |-> LET v == 1 + (r.k % 3) IN
         Op("add_weight_constraint", <<r.l1, r.ws, r.i1, Wct[v], r.b1>>, "propagate_init_add_weight_constraint",
            [literal |-> r.l1, literals |-> r.ws, bound |-> r.i1, type |-> WctV[v], compare_equal |-> r.b1], [result |-> r.b2], r.b2),
     weight_d |-> Op("add_weight_constraint", <<r.l1, r.ws, r.i1, None, None>>, "propagate_init_add_weight_constraint",
            [literal |-> r.l1, literals |-> r.ws, bound |-> r.i1, type |-> 0, compare_equal |-> FALSE], [result |-> r.b2], r.b2),
     minimize |-> Cmd("add_minimize", <<r.l1, r.i1, r.i2>>, "propagate_init_add_minimize", [literal |-> r.l1, weight |-> r.i1, priority |-> r.i2]),
     minimize_d |-> Cmd("add_minimize", <<r.l1, r.i1, None>>, "propagate_init_add_minimize", [literal |-> r.l1, weight |-> r.i1, priority |-> 0]),
     propagate |-> Op("propagate", <<>>, "propagate_init_propagate", NoArg, [result |-> r.b1], r.b1)]
PInitFull(r) ==
    [remove_watch |-> Cmd("remove_watch", <<r.l1, None>>, "propagate_init_remove_watch", [solver_literal |-> r.l1]),
     remove_watch_t |-> Cmd("remove_watch", <<r.l1, r.k>>, "propagate_init_remove_watch_from_thread", [solver_literal |-> r.l1, thread_id |-> r.k]),
     remove_watch_0 |-> Cmd("remove_watch", <<r.l1, 0>>, "propagate_init_remove_watch_from_thread", [solver_literal |-> r.l1, thread_id |-> 0]),
     freeze |-> Cmd("freeze_literal", <<r.l1>>, "propagate_init_freeze_literal", [solver_literal |-> r.l1]),
     set_undo |-> LET v == 1 + (r.k % 2) IN Sure("set_undo_mode", <<(<<"default", "always">>)[v]>>, "propagate_init_set_undo_mode", [mode |-> v - 1], NoOut, None),
     get_undo |-> LET v == 1 + (r.k % 2) IN Sure("get_undo_mode", <<>>, "propagate_init_get_undo_mode", NoArg, [return |-> v - 1], (<<"default", "always">>)[v])]
PCtl(r) ==
    [thread |-> Sure("thread_id", <<>>, "propagate_control_thread_id", NoArg, [return |-> r.k], T(r.k)),
     add_literal |-> Op("add_literal", <<>>, "propagate_control_add_literal", NoArg, [result |-> r.l1], r.l1),
     add_watch |-> Cmd("add_watch", <<r.l1>>, "propagate_control_add_watch", [literal |-> r.l1]),
     has_watch |-> Sure("has_watch", <<r.l1>>, "propagate_control_has_watch", [literal |-> r.l1], [return |-> r.b1], r.b1),
     remove_watch |-> Sure("remove_watch", <<r.l1>>, "propagate_control_remove_watch", [literal |-> r.l1], NoOut, None),
     \* clause types: 1 static (lock), 2 volatile (tag)
     add_clause |-> Op("add_clause", <<r.ls, r.b1, r.b2>>, "propagate_control_add_clause",
                       [clause |-> r.ls, type |-> Bit(r.b1, 2) + Bit(r.b2, 1)], [result |-> r.b3], r.b3),
     add_clause_d |-> Op("add_clause", <<r.ls, None, None>>, "propagate_control_add_clause", [clause |-> r.ls, type |-> 0], [result |-> r.b3], r.b3),
     propagate |-> Op("propagate", <<>>, "propagate_control_propagate", NoArg, [result |-> r.b1], r.b1)]
PCtlNogood(r) ==
    [add_nogood |-> Op("add_nogood", <<r.ls, r.b1, r.b2>>, "propagate_control_add_clause",
                       [clause |-> Neg(r.ls), type |-> Bit(r.b1, 2) + Bit(r.b2, 1)], [result |-> r.b3], r.b3),
     add_nogood_d |-> Op("add_nogood", <<r.ls, None, None>>, "propagate_control_add_clause", [clause |-> Neg(r.ls), type |-> 0], [result |-> r.b3], r.b3)]
Ass(r) ==
    [level |-> Op("level", <<r.l1>>, "assignment_level", [literal |-> r.l1], [level |-> r.k], r.k),
     decision |-> Op("decision", <<r.k>>, "assignment_decision", [level |-> r.k], [literal |-> r.l1], r.l1),
     is_fixed |-> Op("is_fixed", <<r.l1>>, "assignment_is_fixed", [literal |-> r.l1], [is_fixed |-> r.b1], r.b1),
     is_true |-> Op("is_true", <<r.l1>>, "assignment_is_true", [literal |-> r.l1], [is_true |-> r.b1], r.b1),
     is_false |-> Op("is_false", <<r.l1>>, "assignment_is_false", [literal |-> r.l1], [is_false |-> r.b1], r.b1),
     value |-> LET v == 1 + (r.k % 3) IN Op("value", <<r.l1>>, "assignment_truth_value", [literal |-> r.l1], [value |-> v - 1], TV[v]),
     has_literal |-> Sure("has_literal", <<r.l1>>, "assignment_has_literal", [literal |-> r.l1], [return |-> r.b1], r.b1),
     conflict |-> Sure("has_conflict", <<>>, "assignment_has_conflict", NoArg, [return |-> r.b1], r.b1),
     dl |-> Sure("decision_level", <<>>, "assignment_decision_level", NoArg, [return |-> r.k], r.k),
     rl |-> Sure("root_level", <<>>, "assignment_root_level", NoArg, [return |-> r.k], r.k),
     total |-> Sure("is_total", <<>>, "assignment_is_total", NoArg, [return |-> r.b1], r.b1),
     size |-> Sure("size", <<>>, "assignment_size", NoArg, [return |-> r.k], r.k),
     tsize |-> Op("trail_size", <<>>, "assignment_trail_size", NoArg, [size |-> r.k], r.k),
     tbegin |-> Op("trail_begin", <<r.k>>, "assignment_trail_begin", [level |-> r.k], [offset |-> r.tm], T(r.tm)),
     tend |-> Op("trail_end", <<r.k>>, "assignment_trail_end", [level |-> r.k], [offset |-> r.tm], r.tm),
     at |-> [Op("at", <<T(r.tm - 1)>>, "assignment_at", [offset |-> r.tm - 1], [literal |-> r.l1], r.l1) EXCEPT
             !.script = @ \o <<[f |-> "assignment_size", answer |-> [return |-> r.tm + (r.k % 3)], times |-> 0]>>],
     trail_at |-> [Op("trail_at", <<T(r.tm - 1)>>, "assignment_trail_at", [offset |-> r.tm - 1], [literal |-> r.l1], r.l1) EXCEPT
             !.script = @ \o <<[f |-> "assignment_trail_size", answer |-> [size |-> r.tm + (r.k % 3)], times |-> 0]>>],
     iter |-> [m |-> "iter", a |-> <<>>, fail |-> FALSE, res |-> r.ls, calls |-> <<>>,
               script |-> [i \in 1..Len(r.ls) |-> [f |-> "assignment_at", answer |-> [literal |-> r.ls[i]]]]
                          \o <<[f |-> "assignment_size", answer |-> [return |-> Len(r.ls)], times |-> 0]>>],
     trail_iter |-> [m |-> "trail_iter", a |-> <<>>, fail |-> FALSE, res |-> r.ls, calls |-> <<>>,
               script |-> [i \in 1..Len(r.ls) |-> [f |-> "assignment_trail_at", answer |-> [literal |-> r.ls[i]]]]
                          \o <<[f |-> "assignment_trail_size", answer |-> [size |-> Len(r.ls)], times |-> 0]>>]]
AssLua(r) ==
    [pairs |-> [Ass(r).iter EXCEPT !.m = "pairs"], trail_pairs |-> [Ass(r).trail_iter EXCEPT !.m = "trail_pairs"]]
AssPy(r) ==
    [is_free |-> LET v == 1 + (r.k % 3) IN Op("is_free", <<r.l1>>, "assignment_truth_value", [literal |-> r.l1], [value |-> v - 1], v = 1)]

Pick(rec) == rec[RandomElement(DOMAIN rec)]
Table(s, r) ==
    CASE s = "backend" -> IF Lua THEN Backend(r) ELSE Backend(r) @@ BackendFull(r)
      [] s = "control" -> IF Py THEN Control(r) @@ ControlFull(r) @@ ControlPy(r) @@ ControlConst(r) @@ Solve(r)
                           ELSE IF Cc THEN Control(r) @@ ControlFull(r) @@ ControlConst(r) @@ Solve(r) ELSE Control(r) @@ ControlConst(r) @@ Solve(r)
      [] s = "model" -> IF Lua THEN Model(r) ELSE Model(r) @@ ModelFull(r)
      [] s = "mctl" -> IF Cc THEN Mctl(r) ELSE Mctl(r) @@ MctlNogood(r)
      [] s = "handle" -> IF Lua THEN Handle(r) ELSE Handle(r) @@ HandleFull(r)
      [] s = "init" -> IF Lua THEN PInit(r) ELSE PInit(r) @@ PInitFull(r)
      [] s = "pctl" -> IF Cc THEN PCtl(r) ELSE PCtl(r) @@ PCtlNogood(r)
      [] OTHER -> IF Py THEN Ass(r) @@ AssPy(r) ELSE IF Lua THEN Ass(r) @@ AssLua(r) ELSE Ass(r)
\* operations a language does not have
Lacks == IF Lua THEN {"wait", "wait_d", "solve_a", "solve_ay"} ELSE {}

-----------------------------------------------------------------------------
(* failures: the kind of exception and the message *)
Codes == 1..4
Kind(c) == CASE Py -> IF c = 3 THEN "MemoryError" ELSE "RuntimeError"
             [] Cc -> IF c = 3 THEN "bad_alloc" ELSE IF c = 2 THEN "logic_error" ELSE "runtime_error"
             [] OTHER -> "error"
Msgs == {"it failed", "line 1\nline 2", "", "100%", "%s%s%d", "\"quoted\""}
Msg(c, m) == IF Cc /\ c = 3 THEN [any |-> 1] ELSE IF Lua THEN [sub |-> m] ELSE m
Fail(o, c, msg) ==
    [o EXCEPT !.script = <<[f |-> o.script[1].f, fault |-> [code |-> c, msg |-> msg]]>> \o Tail(@),
              !.res = [exc |-> Kind(c), msg |-> Msg(c, msg)],
              !.calls = SelectSeq(@, LAMBDA x : x.f # "solve_handle_close")]
Watch(o) == LET cs == o.calls IN [i \in 1..Len(cs) |-> cs[i].f]
\* functions without effects: how often they are called does not matter
Pure == {"model_number", "model_thread_id", "model_optimality_proven", "model_type", "model_contains", "model_is_true", "model_is_consequence", "model_cost",
         "model_cost_size", "model_priority", "model_symbols", "model_symbols_size", "control_is_conflicting", "control_get_enable_enumeration_assumption",
         "control_get_enable_cleanup", "control_get_const", "solve_handle_get", "solve_handle_model", "solve_handle_last", "solve_handle_core",
         "propagate_init_solver_literal", "propagate_init_number_of_threads", "propagate_init_get_check_mode", "propagate_init_get_undo_mode",
         "propagate_control_thread_id", "propagate_control_has_watch", "assignment_level", "assignment_decision", "assignment_is_fixed", "assignment_is_true",
         "assignment_is_false", "assignment_truth_value", "assignment_has_literal", "assignment_has_conflict", "assignment_decision_level",
         "assignment_root_level", "assignment_is_total", "assignment_size", "assignment_trail_size", "assignment_trail_begin", "assignment_trail_end",
         "assignment_at", "assignment_trail_at"}
Script(s, iter) == IF s.f \in Pure /\ ~iter THEN [times |-> 0] @@ s ELSE s
Item(o) == LET it == o.m \in {"iter", "trail_iter", "pairs", "trail_pairs"} w == Watch(o)
           IN [m |-> o.m, a |-> o.a, script |-> [i \in 1..Len(o.script) |-> Script(o.script[i], it)], watch |-> w,
               pure |-> SelectSeq(w, LAMBDA x : x \in Pure)]
Exp(o) == [calls |-> o.calls, res |-> o.res]

Scenes == {"backend", "control", "model", "mctl", "handle", "init", "pctl", "ass"}
\* h: behaviour so far; sc: the place we are in; os: operations performed there
Init == h = <<>> /\ n = 0 /\ sc = "" /\ os = <<>>
Enter == sc = "" /\ n < Depth /\ sc' \in One(Scenes) /\ n' = n + 1 /\ UNCHANGED <<h, os>>
Do == /\ sc # "" /\ Len(os) < 8
      /\ \E r \in {Draw(n)} : \E nm \in One(DOMAIN Table(sc, r) \ Lacks) : \E o \in {Table(sc, r)[nm]} :
         \E p \in One(1..100) : \E c \in One(Codes) : \E m \in One(Msgs) :
         os' = Append(os, IF o.fail /\ p <= Faults THEN Fail(o, c, m) ELSE o)
      /\ UNCHANGED <<h, n, sc>>
Leave == /\ sc # "" /\ Len(os) > 0
         /\ h' = Append(h, [op |-> "scene", scene |-> sc, items |-> [i \in 1..Len(os) |-> Item(os[i])],
                            exp |-> [items |-> [i \in 1..Len(os) |-> Exp(os[i])]]])
         /\ sc' = "" /\ os' = <<>> /\ UNCHANGED n
Next == \/ \E k \in One(1..6) : IF sc = "" THEN Enter ELSE IF (k = 1 /\ Len(os) > 0) \/ Len(os) = 8 THEN Leave ELSE Do
        \/ sc = "" /\ n = Depth /\ n' = Depth + 1 /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<sc, os>>
        \/ n > Depth /\ UNCHANGED vars
Emit == n # Depth + 1 \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
