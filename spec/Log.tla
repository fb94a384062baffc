-------------------------------- MODULE Log ---------------------------------
(***************************************************************************)
(* Messages (C22).  Each control has a logger and a limit for its lifetime; *)
(* parsing functions have their own.  An enabled warning is delivered while *)
(* the limit is not used up; the first error is delivered in any case and   *)
(* further ones up to the limit; errors make the operation fail.  Without a *)
(* logger messages go to the standard error stream.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth
VARIABLES h, n, cs, uid
vars == <<h, n, cs, uid>>
One(S) == {RandomElement(S)}
Opts == {"-Wno-atom-undefined", "-Wno-operation-undefined", "-Wno-global-variable", "-Wnone", "-Wno-file-included"}
Off(o) == CASE o = "-Wno-atom-undefined" -> {"AtomUndefined"} [] o = "-Wno-operation-undefined" -> {"OperationUndefined"}
            [] o = "-Wno-global-variable" -> {"GlobalVariable"} [] o = "-Wno-file-included" -> {"FileIncluded"}
            [] o = "-Wnone" -> {"AtomUndefined", "OperationUndefined", "GlobalVariable", "FileIncluded"} [] OTHER -> {}

\* lines of programs, and what grounding (g) or parsing (p) them says
W == {"atom", "op", "op2", "gv", "tup", "iv", "none"}
Line(k, u) == LET i == ToString(u) IN
    CASE k = "atom" -> "p" \o i \o " :- u" \o i \o "."
      [] k = "op" -> "q" \o i \o "(1/0)."
      [] k = "op2" -> "r" \o i \o "(X/0) :- X = 1..3."
      [] k = "gv" -> "g" \o i \o " :- X = 1, 1 #sum { X : z }. z."
      [] k = "tup" -> "x" \o i \o " :- #sum { a : z } > 0. z."
      [] k = "iv" -> "i" \o i \o "(1..b)."
      [] k = "unsafe" -> "e" \o i \o "(V" \o i \o ")."
      [] k = "syn" -> "b( ."
      [] k = "lex" -> "$."
      [] k = "const" -> "#const c" \o i \o "=1. #const c" \o i \o "=2."
      [] k = "nofile" -> "#include \"nofile" \o i \o ".lp\"."
      [] k = "twice" -> "#include \"inc.lp\". #include \"inc.lp\"."
      [] OTHER -> "n" \o i \o "."
Code(k) == CASE k = "atom" -> "AtomUndefined" [] k \in {"op", "op2", "tup", "iv"} -> "OperationUndefined" [] k = "gv" -> "GlobalVariable" [] k = "twice" -> "FileIncluded" [] OTHER -> "RuntimeError"
Text(k, u) == LET i == ToString(u) IN
    CASE k = "atom" -> "info: atom does not occur in any rule head:\n  u" \o i \o "\n"
      [] k = "op" -> "info: operation undefined:\n  (1/0)\n" [] k = "op2" -> "info: operation undefined:\n  (X/0)\n"
      [] k = "gv" -> "info: global variable in tuple of aggregate element:\n  X\n" [] k = "tup" -> "info: tuple ignored:\n  a\n"
      [] k = "iv" -> "info: interval undefined:\n  1..b\n" [] k = "unsafe" -> "'V" \o i \o "' is unsafe\n" [] k = "syn" -> "error: syntax error, unexpected ."
      [] k = "lex" -> "error: lexer error, unexpected $\n" [] k = "const" -> "error: redefinition of constant:\n  #const c" \o i \o "=2.\n"
      [] k = "nofile" -> "error: file could not be opened:\n  nofile" \o i \o ".lp\n" [] OTHER -> "already included file:\n  inc.lp\n"
IsErr(k) == k \in {"unsafe", "syn", "lex", "const", "nofile"}
\* the messages of a list of lines: code, line and text
Msgs(ks, u, S) ==
    LET Of(i) == LET m == [code |-> Code(ks[i]), line |-> i, text |-> Text(ks[i], u + i)]
                 IN IF ks[i] \notin S THEN <<>> ELSE IF ks[i] = "lex" THEN <<m, [m EXCEPT !.text = "error: syntax error, unexpected ."]>> ELSE <<m>>
    IN FoldLeft(LAMBDA a, i : a \o Of(i), <<>>, [i \in 1..Len(ks) |-> i])
Lines(ks, u) == [i \in 1..Len(ks) |-> Line(ks[i], u + i)]
\* what a logger with limit L (and an earlier error) lets through; warnings come in any order, so that there may be a choice
Through(ms, L, off) ==
    LET on == SelectSeq(ms, LAMBDA m : m.code \notin off)
        err == \E i \in 1..Len(ms) : ms[i].code = "RuntimeError"
        warn == Cardinality({i \in 1..Len(on) : on[i].code # "RuntimeError"})
        \* warnings come first here
        most == IF err /\ warn >= L THEN L + 1 ELSE L
    IN IF Len(on) <= most THEN [k |-> Len(on), msgs |-> [deliver |-> Len(on), of |-> on]] ELSE [k |-> most, msgs |-> [deliver |-> most, of |-> on]]
Fail(ms) == \E i \in 1..Len(ms) : ms[i].code = "RuntimeError"
Dest(c) == IF cs[c].log THEN "c" \o ToString(c) ELSE "stderr"
Result(ok, to, t) == [ok |-> ok, to |-> IF t.k = 0 THEN "nobody" ELSE to, msgs |-> t.msgs]
Use(c, t, fail) == [cs EXCEPT ![c].lim = IF @ > t.k THEN @ - t.k ELSE 0, ![c].dead = @ \/ fail]

RECURSIVE Ks(_, _)
Ks(m, S) == IF m = 0 THEN <<>> ELSE Append(Ks(m - 1, S), RandomElement(S))

New == /\ Len(cs) < 3
       /\ \E lg \in One({TRUE, TRUE, FALSE}) : \E lim \in One({0, 1, 2, 3, 5, 20}) : \E o \in One(Opts \cup {"", "none", "none2"}) :
          /\ cs' = Append(cs, [log |-> lg, lim |-> lim, off |-> Off(o), dead |-> FALSE, part |-> <<>>, inc |-> FALSE, gv |-> <<>>])
          /\ h' = Append(h, [op |-> "l_new", log |-> lg, lim |-> lim, args |-> IF o \in Opts THEN <<o>> ELSE <<>>])
       /\ UNCHANGED uid
\* text for later: nothing is said (except about repeated files)
Add == \E c \in One(1..Len(cs)) : \E m \in One(0..5) : \E e \in One({TRUE, FALSE, FALSE}) : \E ks \in {Ks(m, IF e THEN {"unsafe", "none"} ELSE W)} :
       \E how \in One({"add", "load"} \cup (IF Lang \in {"py", "cc"} THEN {"build"} ELSE {})) :
       /\ ~cs[c].dead /\ cs[c].part = <<>>
       /\ cs' = [cs EXCEPT ![c].part = <<[name |-> "part" \o ToString(uid), ks |-> ks, uid |-> uid]>>] /\ uid' = uid + 10
       /\ h' = Append(h, [op |-> "l_add", c |-> c, how |-> how, part |-> "part" \o ToString(uid), lines |-> Lines(ks, uid),
                          exp |-> Result(TRUE, "nobody", [k |-> 0, msgs |-> [deliver |-> 0, of |-> <<>>]])])
\* text that is rejected, or includes a file twice
Broken == \E c \in One(1..Len(cs)) : \E m \in One(1..5) : \E tw \in One({TRUE, FALSE}) :
          \E ks \in {IF tw THEN <<"twice">> ELSE Ks(m, {"syn", "lex", "nofile", "const", "none"})} : \E how \in One({"add", "load"}) :
          /\ ~cs[c].dead
          /\ (tw => ~cs[c].inc)
          /\ LET ms == Msgs(ks, uid, {"syn", "lex", "nofile", "const", "twice"}) t == Through(ms, cs[c].lim, cs[c].off)
             IN /\ cs' = IF tw THEN [Use(c, t, FALSE) EXCEPT ![c].inc = TRUE] ELSE Use(c, t, Fail(ms))
                /\ h' = Append(h, [op |-> "l_add", c |-> c, how |-> how, part |-> "part" \o ToString(uid), lines |-> Lines(ks, uid), exp |-> Result(~Fail(ms), Dest(c), t)])
          /\ uid' = uid + 10
Ground == \E c \in One(1..Len(cs)) :
          /\ ~cs[c].dead /\ cs[c].part # <<>>
          /\ LET p == cs[c].part[1]
                 er == Msgs(p.ks, p.uid, {"unsafe"})
                 \* global variables are looked for in the whole text each time
                 gv == cs[c].gv
                 ms == gv \o (IF er # <<>> THEN er ELSE Msgs(p.ks, p.uid, W \ {"none"}))
                 t == Through(ms, cs[c].lim, cs[c].off)
             IN /\ cs' = [Use(c, t, Fail(ms)) EXCEPT ![c].part = <<>>, ![c].gv = @ \o Msgs(p.ks, p.uid, {"gv"})]
                /\ h' = Append(h, [op |-> "l_ground", c |-> c, part |-> p.name, exp |-> Result(~Fail(ms), Dest(c), t)])
          /\ UNCHANGED uid
\* parsing functions with their own logger
Parse == /\ Lang \in {"py", "cc"}
         /\ \E m \in One(1..5) : \E ks \in {Ks(m, {"syn", "lex", "nofile", "none", "atom", "unsafe"})} : \E lg \in One({TRUE, TRUE, FALSE}) : \E lim \in One({0, 1, 2, 3, 20}) :
            \E how \in One({"string", "files"}) :
            LET ms == Msgs(ks, uid, {"syn", "lex", "nofile"}) t == Through(ms, lim, {})
            IN h' = Append(h, [op |-> "l_parse", how |-> how, log |-> lg, lim |-> lim, lines |-> Lines(ks, uid), exp |-> Result(~Fail(ms), IF lg THEN "parser" ELSE "stderr", t)])
         /\ uid' = uid + 10 /\ UNCHANGED cs
\* terms that cannot be parsed or evaluated raise an error
Term == \E s \in One({"1/0", "p(", "f(2,1+a)", "a;b", "p(X)", "f(1)", "1+2"}) : \E lg \in One({TRUE, FALSE}) : \E lim \in One({0, 1, 20}) :
        h' = Append(h, [op |-> "l_term", text |-> s, log |-> lg, lim |-> lim, exp |-> [ok |-> s \in {"f(1)", "1+2"}, to |-> "nobody"]]) /\ UNCHANGED <<cs, uid>>

Init == n = 0 /\ cs = <<>> /\ uid = 10 /\ h = <<[op |-> "l_start"]>>
Next == \/ /\ n < Depth /\ n' = n + 1
           /\ \E k \in One(1..14) :
              IF Len(cs) = 0 \/ k = 1 THEN (New \/ UNCHANGED <<h, cs, uid>>) ELSE IF k <= 6 THEN (Add \/ UNCHANGED <<h, cs, uid>>) ELSE IF k <= 10 THEN (Ground \/ UNCHANGED <<h, cs, uid>>)
              ELSE IF k = 11 THEN (Broken \/ UNCHANGED <<h, cs, uid>>) ELSE IF k <= 13 THEN (Parse \/ UNCHANGED <<h, cs, uid>>) ELSE Term
        \/ n >= Depth /\ n' = Depth + 1 /\ UNCHANGED <<h, cs, uid>>
Emit == n # Depth + 1 \/ CSVWrite("%1$s", <<ToJson(Append(h, [op |-> "end"]))>>, IOEnv.OUT)
=============================================================================
