------------------------------- MODULE Trail -------------------------------
(***************************************************************************)
(* C07: searches to watch.  A program, what two propagators watch, how they *)
(* are checked, decide and interfere, and a sequence of solve calls.  The   *)
(* recorded callbacks are checked by TrailTrace.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Lang, Solves
VARIABLES h, k
R(S) == RandomElement(S)
One(S) == {RandomElement(S)}
At(i) == "a" \o ToString(i)
RECURSIVE SetSeq(_), Lits(_, _, _), Txt(_, _), Body(_), Many(_, _, _, _)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Lits(n, S, x) == IF n = 0 \/ S = {} THEN <<>> ELSE LET a == R(S) s == R({0, 1}) IN Append(Lits(n - 1, S \ {a}, x), <<At(a), s>>)
Body(ls) == IF ls = <<>> THEN "" ELSE (IF ls[1][2] = 1 THEN "" ELSE "not ") \o ls[1][1] \o (IF Len(ls) = 1 THEN "" ELSE ", ") \o Body(Tail(ls))
\* rules: constraints and definitions of b1, b2
Txt(n, N) == IF n = 0 THEN "" ELSE LET ls == Lits(R(2..3), 1..N, n) c == R(1..3) IN
    (CASE c = 1 -> "" [] c = 2 -> "b1" [] OTHER -> "b2") \o " :- " \o Body(ls) \o ". " \o Txt(n - 1, N)
Many(n, N, f, x) == IF n = 0 THEN <<>> ELSE Append(Many(n - 1, N, f, x),
    [k |-> R({"clause", "nogood"}), lits |-> Lits(R(1..3), 1..N, <<x, n>>), tag |-> TRUE, lock |-> R(BOOLEAN), when |-> R({"check", "prop"})])
Init == h = <<>> /\ k = 0
New == \E N \in One(2..5) : \E r \in {Txt(R(0..3), N)} : \E dis \in One(1..4) :
    /\ h' = <<[op |-> "tr_new", n |-> N, text |-> "{" \o (IF N >= 2 THEN "a1; a2" ELSE "a1") \o (IF N >= 3 THEN "; a3" ELSE "") \o (IF N >= 4 THEN "; a4" ELSE "")
                   \o (IF N >= 5 THEN "; a5" ELSE "") \o "}. {b1; b2} :- a1. " \o r \o (IF dis = 1 THEN "c; d :- a2. c :- d. d :- c." ELSE ""),
               threads |-> R({1, 1, 2}), mode |-> R({"total", "fixpoint", "both", "off"}), decide |-> R(0..3), other |-> R(BOOLEAN), seq |-> R(BOOLEAN),
               conf |-> R({"", "", "--restarts=F,1", "--heuristic=Berkmin", "--heuristic=Vmtf", "--eq=0", "--sat-prepro=no"}), events |-> R({60, 120})]>>
    /\ k' = 0
Solve == \E N \in {h[1].n} :
    /\ h' = Append(h, [op |-> "tr_solve", assume |-> Lits(R({0, 0, 1, 2}), 1..N, k), watch |-> R({"all", "pos", "neg", "some", "thread", "none"}), lazy |-> Many(R({0, 0, 1, 2}), N, 0, k),
                       dyn |-> R(0..3), models |-> R({0, 0, 1, 3}), how |-> R({"cb", "yield"})])
    /\ k' = k + 1
Next == IF h = <<>> THEN New ELSE IF k < Solves THEN Solve
        ELSE IF h[Len(h)].op # "end" THEN h' = h \o <<[op |-> "tr_get"], [op |-> "end"]>> /\ UNCHANGED k ELSE UNCHANGED <<h, k>>
Emit == h = <<>> \/ h[Len(h)].op # "end" \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
