------------------------------ MODULE AstParse -----------------------------
(***************************************************************************)
(* C15: every statement parses into the tree the specification says, and    *)
(* the tree prints to the text; constructing it from its attributes yields  *)
(* an equal tree with equal hash.  Programs of several statements report    *)
(* them in order with their locations.                                      *)
(***************************************************************************)
EXTENDS AstGen, Json, CSV, IOUtils
CONSTANTS Lang
VARIABLES h
RECURSIVE Lines(_)
Lines(s) == IF s = "" THEN 0 ELSE (IF SubSeq(s, 1, 1) = "\n" THEN 1 ELSE 0) + Lines(SubSeq(s, 2, Len(s)))
RECURSIVE LastLen(_, _)
LastLen(s, n) == IF s = "" THEN n ELSE LastLen(SubSeq(s, 2, Len(s)), IF SubSeq(s, 1, 1) = "\n" THEN 0 ELSE n + 1)
RECURSIVE Locs(_, _)
Locs(ts, l) == IF ts = <<>> THEN <<>> ELSE
    LET k == Lines(ts[1]) IN <<<<l, 1, l + k, LastLen(ts[1], 0) + 1>>>> \o Locs(Tail(ts), l + k + 1)
Stm(x) == LET c == RandomElement(Statements \cup {"Rule "}) IN Gen(IF c = "Rule " THEN "Rule" ELSE c, 2, x)
RECURSIVE Stms(_, _)
Stms(n, x) == IF n = 0 THEN <<>> ELSE Append(Stms(n - 1, x), Stm(<<x, n>>))
Parse == \E n \in {RandomElement(1..4)} : \E ts \in {Stms(n, h)} : \E tx \in {[i \in 1..n |-> Text(ts[i])]} :
         \E w \in {RandomElement({"string", "file", "control"})} : \E tr \in {RandomElement({"", "\n"})} :
         h' = Append(h, [op |-> "ast_parse", text |-> JoinText(tx, "\n") \o tr, how |-> w,
                         exp |-> [trees |-> <<<<"Program", "base", <<>>>>>> \o ts, texts |-> <<"#program base.">> \o tx, locs |-> Locs(tx, 1),
                                  rebuilt |-> TRUE, again |-> TRUE]])
\* constructing any kind of node
Build == \E c \in {RandomElement(Classes \cup Statements \cup {"Script"})} : \E t \in {Gen(c, 2, h)} :
         h' = Append(h, [op |-> "ast_build", tree |-> t,
                         keys |-> (IF t[1] \in NoLocation THEN <<>> ELSE <<"location">>) \o [i \in 1..Len(Schema[t[1]]) |-> Schema[t[1]][i][1]],
                         child |-> [i \in 1..Len(Schema[t[1]]) |-> IF Schema[t[1]][i][2] \in {"n", "o", "N"} THEN Schema[t[1]][i][1] ELSE ""],
                         exp |-> [tree |-> t, text |-> Text(t), same |-> TRUE, keys |-> TRUE]])
Init == h = <<>>
Next == \/ /\ Len(h) < 6
           /\ (IF RandomElement(1..3) = 1 THEN Build ELSE Parse)
        \/ Len(h) = 6 /\ h' = Append(h, [op |-> "end"])
        \/ Len(h) = 7 /\ UNCHANGED h
Emit == Len(h) # 7 \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
