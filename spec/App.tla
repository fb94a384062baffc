-------------------------------- MODULE App --------------------------------
(***************************************************************************)
(* C18: applications.  An application is a record saying which members it   *)
(* has and how they behave; a command line is a sequence of tokens.  A run  *)
(* passes through the phases                                                *)
(*   register -> syntax -> assign (option by option) -> help/version ->     *)
(*   validate -> main (-> log, models, result) -> exit                      *)
(* and everything the user can see of it - the calls of the application's   *)
(* members in order, what is printed per model, the exit status - is        *)
(* accumulated in the state.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Lang, Runs
VARIABLES h,      \* finished runs
          phase,
          app,    \* the application
          todo,   \* tokens of the command line still to assign
          cmd,    \* the words of the command line
          run     \* [ev, seen, flags, files, nmod, quiet, special, code]: the run so far
vars == <<h, phase, app, todo, run, cmd>>
R(S) == RandomElement(S)
One(S) == {RandomElement(S)}
RECURSIVE Concat(_), Toks(_, _, _, _), Cmd(_), Sub(_, _, _), Fill(_, _)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
\* ------------------------------------------------------------ applications
Opts == << [names |-> "zalpha,Z", long |-> "zalpha", short |-> "Z", pre |-> "zalp", kind |-> "parse", multi |-> TRUE, init |-> FALSE, arg |-> "<x>", group |-> "Group A", desc |-> "first description",
            help |-> "--zalpha,-Z <x>  "],
           [names |-> "zbeta", long |-> "zbeta", short |-> "", pre |-> "zb", kind |-> "parse", multi |-> FALSE, init |-> FALSE, arg |-> "", group |-> "Group A", desc |-> "a second one", help |-> "--zbeta=<arg>  "],
           [names |-> "zgamma,Y", long |-> "zgamma", short |-> "Y", pre |-> "zgam", kind |-> "parse", multi |-> FALSE, init |-> FALSE, arg |-> "file", group |-> "Group B", desc |-> "third", help |-> "--zgamma,-Y file  "],
           [names |-> "zflag,X", long |-> "zflag", short |-> "X", pre |-> "zf", kind |-> "flag", multi |-> FALSE, init |-> FALSE, arg |-> "", group |-> "Group B", desc |-> "set something", help |-> "--[no-]zflag,-X  "],
           [names |-> "zmark", long |-> "zmark", short |-> "", pre |-> "zm", kind |-> "flag", multi |-> FALSE, init |-> TRUE, arg |-> "", group |-> "Group C", desc |-> "mark it", help |-> "--[no-]zmark  "] >>
Sub(i, S, x) == IF i > 5 THEN <<>> ELSE (IF i \in S THEN <<[Opts[i] EXCEPT !.multi = IF Opts[i].kind = "flag" THEN FALSE ELSE IF R(1..3) = 1 THEN ~@ ELSE @, !.init = IF R(1..4) = 1 THEN ~@ ELSE @]>> ELSE <<>>) \o Sub(i + 1, S, <<x, i>>)
\* undefined atoms in the text, choices, unsatisfiable
Fill(k, p) == IF k = 0 THEN "" ELSE Fill(k - 1, p) \o " x" \o ToString(k) \o " :- " \o p \o ToString(k) \o "."
Text(nc, nu, unsat) == "b." \o (IF nc >= 1 THEN " {c1}." ELSE "") \o (IF nc >= 2 THEN " {c2}." ELSE "") \o Fill(nu, "u") \o (IF unsat THEN " :- b." ELSE "")
NewApp(x) == LET nc == R(0..2) nu == R({0, 0, 1, 2, 4, 22}) unsat == R(1..6) = 1 IN
    [name |-> R({"", "foo", "my app"}), version |-> R({"", "7.8", "0.1-rc"}), limit |-> R({-1, -1, 0, 1, 3, 30}), log |-> R(BOOLEAN),
     printer |-> R({"none", "call", "skip", "twice"} \cup (IF Lang = "py" THEN {"raise"} ELSE {})),
     validate |-> R({"none", "true", "true", "true", "false", "raise"}), register |-> IF R(1..12) = 1 THEN R({"none", "raise"}) ELSE "yes",
     main |-> IF R(1..2) = 1 THEN "solve" ELSE R({"solve", "twice", "raise", "solve_raise", "nosolve"} \cup (IF Lang = "py" THEN {"none"} ELSE {})),
     inst |-> R(BOOLEAN), prop |-> R(BOOLEAN), argv |-> R(BOOLEAN), opts |-> Sub(1, R(SUBSET (1..5)), x),
     nc |-> nc, nu |-> nu, unsat |-> unsat, text |-> Text(nc, nu, unsat), files |-> <<<<"f1", "file(1).">>, <<"f2.lp", "file(2).">>, <<"my f3", "file(3).">>>>]
\* ------------------------------------------------------------ command lines
\* a token: kind opt [o, v], flag [o, v], file, num, quiet, special
Vals == {"1", "x,y", "a=b", "two words", "-x", "", "bad", "boom", "--zbeta"}
OptTok(o, x) == LET v == R({"1", "x,y", "a=b"} \cup (IF R(1..2) = 1 THEN Vals ELSE {})) p == R(1..2) IN
    [k |-> "opt", o |-> o, v |-> v, w |-> IF v \in {"", "-x", "--zbeta"} \/ p = 1 THEN <<"--" \o (IF R(1..3) = 1 THEN o.pre ELSE o.long), v>>
                                        ELSE IF o.short # "" /\ R(1..2) = 1 THEN (IF R(1..2) = 1 THEN <<"-" \o o.short \o v>> ELSE <<"-" \o o.short, v>>)
                                        ELSE <<"--" \o (IF R(1..3) = 1 THEN o.pre ELSE o.long) \o "=" \o v>>]
FlagTok(o, x) == LET v == R({0, 1, 1}) IN [k |-> "flag", o |-> o, v |-> v = 1, w |-> IF v = 0 THEN <<"--no-" \o o.long>> ELSE IF o.short # "" /\ R(1..2) = 1 THEN <<"-" \o o.short>> ELSE <<"--" \o o.long>>]
\* every option that may be given once only appears rarely twice
Toks(n, opts, used, x) == IF n = 0 THEN <<>> ELSE LET c == R(1..10) IN
    IF c <= 5 /\ opts # <<>> THEN
        LET o == opts[R(1..Len(opts))] IN
        IF o.long \in used /\ ~o.multi /\ R(1..4) # 1 THEN Toks(n - 1, opts, used, <<x, n>>)
        ELSE <<(IF o.kind = "flag" THEN FlagTok(o, x) ELSE OptTok(o, x))>> \o Toks(n - 1, opts, used \cup {o.long}, <<x, n>>)
    ELSE IF c <= 7 THEN LET f == R({"f1", "f2.lp", "my f3"}) IN
        (IF f \in used THEN <<>> ELSE <<[k |-> "file", v |-> f, w |-> <<f>>]>>) \o Toks(n - 1, opts, used \cup {f}, <<x, n>>)
    ELSE IF c <= 8 THEN LET m == R({0, 0, 1, 2, 3, 9}) IN
        (IF "num" \in used THEN <<>> ELSE <<[k |-> "num", v |-> m, w |-> R({<<ToString(m)>>, <<"-n", ToString(m)>>, <<"--models=" \o ToString(m)>>})]>>) \o Toks(n - 1, opts, used \cup {"num"}, <<x, n>>)
    ELSE IF c = 9 THEN LET q == R({"quiet", "quiet", "brief", "unknown", "value", "help", "version"}) IN
        (IF q \in used \/ R(1..2) = 1 THEN <<>>
         ELSE <<(CASE q = "quiet" -> [k |-> "quiet", w |-> R({<<"-q">>, <<"--quiet">>})] [] q = "brief" -> [k |-> "brief", w |-> R({<<"-V0">>, <<"--verbose=0">>})]
                   [] q = "unknown" -> [k |-> "syntax", w |-> R({<<"--znope">>, <<"-Q">>})] [] q = "value" -> [k |-> "syntax", w |-> <<"--zflag=1">>]
                   [] q = "help" -> [k |-> "help", w |-> R({<<"--help">>, <<"-h">>})] [] OTHER -> [k |-> "version", w |-> R({<<"--version">>, <<"-v">>})])>>)
        \o Toks(n - 1, opts, used \cup {q}, <<x, n>>)
    ELSE Toks(n - 1, opts, used, <<x, n>>)
Cmd(ts) == IF ts = <<>> THEN <<>> ELSE ts[1].w \o Cmd(Tail(ts))
\* ------------------------------------------------------------ runs
Run0 == [ev |-> <<>>, seen |-> {}, flags |-> <<>>, files |-> <<>>, nmod |-> 1, quiet |-> FALSE, brief |-> FALSE, special |-> "", code |-> 0, panic |-> FALSE, answers |-> <<>>, err |-> FALSE, res |-> <<>>, boo |-> FALSE]
Flags(r) == IF r.flags = <<>> THEN <<>> ELSE LET fs == SelectSeq(app.opts, LAMBDA o : o.kind = "flag") IN [j \in 1..Len(fs) |-> <<fs[j].long, r.flags[j], r.flags[j]>>]
FIdx(o) == LET fs == SelectSeq(app.opts, LAMBDA x : x.kind = "flag") IN CHOOSE j \in 1..Len(fs) : fs[j].long = o.long
Fail(r, c) == [r EXCEPT !.code = c, !.err = TRUE]
\* Python: an exception where none may leave ends the process
Panic(r) == IF Lang = "py" THEN [r EXCEPT !.code = 1, !.panic = TRUE, !.boo = TRUE] ELSE Fail(r, 1)
Say(r, e) == [r EXCEPT !.ev = Append(@, e)]
Register == phase = "new" /\
    IF app.register = "none" THEN phase' = "syntax" /\ run' = run /\ UNCHANGED <<h, app, todo>>
    ELSE LET r == Say(run, <<"register">>) IN
         IF app.register = "raise" THEN phase' = "exit" /\ run' = [Panic(r) EXCEPT !.boo = TRUE] /\ UNCHANGED <<h, app, todo>>
         ELSE phase' = "syntax" /\ run' = [r EXCEPT !.flags = LET fs == SelectSeq(app.opts, LAMBDA o : o.kind = "flag") IN [j \in 1..Len(fs) |-> fs[j].init]] /\ UNCHANGED <<h, app, todo>>
Known(t) == t.k \notin {"syntax"}
Syntax == phase = "syntax" /\ UNCHANGED <<h, app, todo>> /\
    IF \E j \in 1..Len(todo) : ~Known(todo[j]) THEN phase' = "exit" /\ run' = Fail(run, 1) ELSE phase' = "assign" /\ run' = run
Again(t) == t.k \in {"opt", "flag"} /\ t.o.long \in run.seen /\ ~t.o.multi
Assign == phase = "assign" /\ UNCHANGED <<h, app>> /\
    IF todo = <<>> THEN phase' = "info" /\ UNCHANGED <<todo, run>>
    ELSE LET t == todo[1] r == [run EXCEPT !.seen = @ \cup (IF t.k \in {"opt", "flag"} THEN {t.o.long} ELSE {})] IN
         /\ todo' = Tail(todo)
         /\ IF Again(t) THEN phase' = "exit" /\ run' = Fail(run, 1)
            ELSE CASE t.k = "opt" -> LET q == Say(r, <<"parse", t.o.long, t.v>>) IN
                        IF t.v = "boom" THEN phase' = "exit" /\ run' = Panic(q) ELSE IF t.v = "bad" THEN phase' = "exit" /\ run' = Fail(q, 1) ELSE phase' = "assign" /\ run' = q
                   [] t.k = "flag" -> phase' = "assign" /\ run' = [r EXCEPT !.flags[FIdx(t.o)] = t.v]
                   [] t.k = "file" -> phase' = "assign" /\ run' = [r EXCEPT !.files = Append(@, t.v)]
                   [] t.k = "num" -> phase' = "assign" /\ run' = [r EXCEPT !.nmod = t.v]
                   [] t.k = "quiet" -> phase' = "assign" /\ run' = [r EXCEPT !.quiet = TRUE]
                   [] t.k = "brief" -> phase' = "assign" /\ run' = [r EXCEPT !.brief = TRUE]
                   [] OTHER -> phase' = "assign" /\ run' = [r EXCEPT !.special = IF @ = "help" THEN @ ELSE t.k]
Info == phase = "info" /\ UNCHANGED <<h, app, todo, run>> /\ phase' = IF run.special # "" THEN "exit" ELSE "validate"
Validate == phase = "validate" /\ UNCHANGED <<h, app, todo>> /\
    IF app.validate = "none" THEN phase' = "main" /\ run' = run
    ELSE LET r == Say(run, <<"validate", Flags(run)>>) IN
         CASE app.validate = "true" -> phase' = "main" /\ run' = r
           \* the installed engine reports the error and exits with status zero
           [] app.validate = "false" -> phase' = "exit" /\ run' = [Fail(r, 0) EXCEPT !.boo = Lang = "cc"]
           [] OTHER -> phase' = "exit" /\ run' = IF Lang = "py" THEN Panic(r) ELSE [Fail(r, 0) EXCEPT !.boo = TRUE]
\* ---- main
FileAtom(f) == CASE f = "f1" -> "file(1)" [] f = "f2.lp" -> "file(2)" [] OTHER -> "file(3)"
FileNo(f) == CASE f = "f1" -> 1 [] f = "f2.lp" -> 2 [] OTHER -> 3
\* sorted list of atoms: b c1 c2 file(1) ..
Atoms(cs, fs) == (IF app.main = "none" THEN <<>> ELSE <<"b">>) \o (IF 1 \in cs THEN <<"c1">> ELSE <<>>) \o (IF 2 \in cs THEN <<"c2">> ELSE <<>>)
    \o (IF 1 \in fs THEN <<"file(1)">> ELSE <<>>) \o (IF 2 \in fs THEN <<"file(2)">> ELSE <<>>) \o (IF 3 \in fs THEN <<"file(3)">> ELSE <<>>)
NC == IF app.main = "none" THEN 0 ELSE app.nc
NU == IF app.main = "none" THEN 0 ELSE app.nu
Unsat == app.main # "none" /\ app.unsat
FS(r) == {FileNo(r.files[j]) : j \in 1..Len(r.files)}
Models(r) == IF Unsat THEN {} ELSE {Atoms(cs, FS(r)) : cs \in SUBSET (1..NC)}
Total == IF Unsat THEN 0 ELSE CASE NC = 0 -> 1 [] NC = 1 -> 2 [] OTHER -> 4
Found(r) == IF r.nmod = 0 \/ r.nmod > Total THEN Total ELSE r.nmod
Exh(r) == r.nmod = 0 \/ r.nmod > Total \/ app.main = "none"
Limit == IF app.limit < 0 THEN 20 ELSE app.limit
Logged == LET n == IF NU > Limit THEN Limit ELSE NU IN [j \in 1..n |-> <<"log", "AtomUndefined", "u" \o ToString(j)>>]
\* what one search reports: the application's printer sees each model unless models are not printed
Shown(r) == IF r.quiet THEN 0 ELSE IF app.printer = "raise" /\ Found(r) >= 2 THEN 2 ELSE Found(r)
Broken(r) == app.printer = "raise" /\ ~r.quiet /\ Found(r) >= 2
\* every model counts as printed by name "any"; all of them together are known when the search is complete
OneModel(n) == <<"model", n, IF app.main = "none" THEN "" ELSE [any |-> 1]>>
ModelEvs(r) == IF app.printer = "none" THEN <<>> ELSE [n \in 1..Shown(r) |-> OneModel(n)]
Answer(r, n) == [n |-> IF r.brief THEN 0 ELSE n,
                 pm |-> IF app.printer = "none" THEN 0 ELSE 1, pe |-> IF app.printer = "call" THEN 1 ELSE 0,
                 def |-> CASE app.printer \in {"none", "call"} -> 1 [] app.printer = "skip" -> 0 [] app.printer = "twice" -> 2 [] OTHER -> IF n = 2 THEN 0 ELSE 1, same |-> TRUE]
Answers(r) == [n \in 1..Shown(r) |-> Answer(r, n)]
Code(r) == (IF Found(r) > 0 THEN 10 ELSE 0) + (IF Exh(r) THEN 20 ELSE 0)
Result(r) == <<"result", IF Found(r) > 0 THEN "SAT" ELSE "UNSAT">>
\* 65 marks errors: 64 and 1 are added to the status of the search
Or65(c) == c + 65
Search(r) == IF Broken(r) THEN [r EXCEPT !.ev = @ \o ModelEvs(r), !.answers = @ \o Answers(r), !.code = 10, !.err = TRUE]
             ELSE [r EXCEPT !.ev = @ \o ModelEvs(r) \o (IF app.main = "none" THEN <<>> ELSE <<Result(r)>>), !.answers = @ \o Answers(r), !.code = Code(r)]
Done(r) == phase' = "exit" /\ run' = IF r.err THEN [r EXCEPT !.code = Or65(@)] ELSE r
Main == phase = "main" /\ UNCHANGED <<h, app, todo>> /\
    LET r0 == IF app.main = "none" THEN run ELSE Say(run, <<"main", run.files, Flags(run), TRUE>>)
        r1 == IF app.log THEN [r0 EXCEPT !.ev = @ \o Logged] ELSE r0 IN
    CASE app.main = "raise" -> Done([r0 EXCEPT !.err = TRUE, !.boo = TRUE])
      [] app.main = "nosolve" -> Done([r1 EXCEPT !.res = <<"UNKNOWN">>, !.code = IF Unsat THEN 20 ELSE 0])
      [] app.main = "twice" -> LET a == Search(r1) IN Done([(IF a.err THEN a ELSE Search(a)) EXCEPT !.res = <<"all", 2>>])
      [] app.main = "solve_raise" -> LET a == Search(r1) IN Done([a EXCEPT !.err = TRUE, !.boo = TRUE, !.res = <<"all", 1>>])
      [] OTHER -> Done([Search(r1) EXCEPT !.res = <<"all", 1>>])
InMain == run.res # <<>> \/ (app.main = "raise" /\ Len(run.ev) > 0 /\ run.ev[Len(run.ev)][1] = "main")
\* the complete list of printed models when nothing is left out
RECURSIVE Times(_, _), Words(_), SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Words(s) == IF s = <<>> THEN "" ELSE s[1] \o (IF Len(s) = 1 THEN "" ELSE " ") \o Words(Tail(s))
Times(s, k) == IF k = 0 THEN <<>> ELSE s \o Times(s, k - 1)
AllPrinted == run.res # <<>> /\ run.res[1] = "all" /\ ~run.quiet /\ ~Broken(run) /\ Found(run) = Total /\ app.printer \in {"none", "call"}
Printed == LET s == SeqOf(Models(run)) IN Times([j \in 1..Len(s) |-> Words(s[j])], IF run.res = <<"all", 2>> THEN 2 ELSE 1)
PName == IF app.name = "" THEN "clingo" ELSE app.name
HeadLine == IF app.version = "" THEN [sub |-> PName \o " version "] ELSE PName \o " version " \o app.version
Look == IF app.register = "yes" THEN Concat([j \in 1..Len(app.opts) |-> <<"\n" \o app.opts[j].group \o ":\n", "  " \o app.opts[j].help, " : " \o app.opts[j].desc \o "\n">>]) ELSE <<>>
Expect == [code |-> run.code, ev |-> run.ev,
           head |-> IF run.special # "" /\ ~run.err /\ ~run.panic THEN HeadLine ELSE IF InMain /\ ~run.brief THEN HeadLine ELSE "",
           answers |-> run.answers, printed |-> IF AllPrinted THEN [bag |-> Printed] ELSE [any |-> 1],
           err |-> IF run.err /\ ~run.panic THEN PName ELSE "", boo |-> run.boo \/ (run.answers # <<>> /\ Broken(run)),
           errlogs |-> IF InMain /\ run.res # <<>> /\ ~app.log THEN Len(Logged) ELSE 0,
           look |-> IF run.special = "help" /\ ~run.err /\ ~run.panic THEN [j \in 1..Len(Look) |-> TRUE] ELSE [any |-> 1]]
Clean == [name |-> app.name, version |-> app.version, limit |-> app.limit, log |-> app.log, printer |-> app.printer, validate |-> app.validate, register |-> app.register, main |-> app.main,
          inst |-> app.inst, prop |-> app.prop, argv |-> app.argv, opts |-> app.opts, text |-> app.text, files |-> app.files]
Exit == phase = "exit" /\ h' = Append(h, [op |-> "ap_run", cmd |-> cmd, brief |-> run.brief, look |-> Look, exp |-> Expect] @@ Clean) /\ phase' = "idle" /\ UNCHANGED <<app, todo, run, cmd>>
Start == phase = "idle" /\ Len(h) < Runs /\ \E a \in {NewApp(h)} :
    \E ts \in {Toks(R(0..6), IF a.register = "yes" THEN a.opts ELSE <<>>, {}, h)} :
    app' = a /\ todo' = ts /\ cmd' = Cmd(ts) /\ run' = Run0 /\ phase' = "new" /\ h' = h
End == phase = "idle" /\ Len(h) = Runs /\ phase' = "end" /\ UNCHANGED <<h, app, todo, run, cmd>>
Init == h = <<>> /\ phase = "idle" /\ app = [opts |-> <<>>] /\ todo = <<>> /\ run = Run0 /\ cmd = <<>>
Next == Start \/ Exit \/ End \/ ((Register \/ Syntax \/ Assign \/ Info \/ Validate \/ Main) /\ UNCHANGED cmd) \/ (phase = "end" /\ UNCHANGED vars)
\* nothing of a run happens out of order
Place(e) == CASE e = "register" -> 1 [] e = "parse" -> 2 [] e = "validate" -> 3 [] e = "main" -> 4 [] OTHER -> 5
Ordered == \A i, j \in 1..Len(run.ev) : i < j => Place(run.ev[i][1]) <= Place(run.ev[j][1])
Once == \A i, j \in 1..Len(run.ev) : (i # j /\ run.ev[i][1] = run.ev[j][1]) => run.ev[i][1] \in {"parse", "log", "model", "result"}
Emit == phase # "end" \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
