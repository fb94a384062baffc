------------------------------ MODULE AstTrans -----------------------------
(***************************************************************************)
(* C14: transforming a tree.  Nodes of the original are numbered in         *)
(* preorder; after the transformation the driver numbers the locations of   *)
(* the original anew, so that the line of every node of the result says     *)
(* whether it is a node of the original (200 + n), a copy of one (100 + n)  *)
(* or a new one (1); nodes without location give 0.                         *)
(***************************************************************************)
EXTENDS AstGen, FiniteSets, Json, CSV, IOUtils
CONSTANTS Lang
VARIABLES h
One(S) == {RandomElement(S)}
Kind(t, i) == Schema[t[1]][i][2]
Arity(t) == Len(Schema[t[1]])
KidsAt(t, i) == CASE Kind(t, i) = "n" -> <<t[i + 1]>> [] Kind(t, i) \in {"o", "N"} -> t[i + 1] [] OTHER -> <<>>
RECURSIVE KidsFrom(_, _), Pre(_), PreAll(_)
KidsFrom(t, i) == IF i > Arity(t) THEN <<>> ELSE KidsAt(t, i) \o KidsFrom(t, i + 1)
PreAll(s) == IF s = <<>> THEN <<>> ELSE Pre(s[1]) \o PreAll(Tail(s))
Pre(t) == <<t[1]>> \o PreAll(KidsFrom(t, 1))
Size(t) == Len(Pre(t))
Line(ty, n) == IF ty \in NoLocation THEN 0 ELSE n
Orig(t, id) == LET p == Pre(t) IN [i \in 1..Len(p) |-> Line(p[i], 200 + id + i - 1)]
NameIdx(t) == IF \E i \in 1..Arity(t) : Schema[t[1]][i][1] = "name" THEN (CHOOSE i \in 1..Arity(t) : Schema[t[1]][i][1] = "name") + 1 ELSE 0
New == <<"Variable", "Zz">>

\* H maps types to handlers; d and g are the extra arguments
RECURSIVE Tr(_, _, _, _, _), TrSeq(_, _, _, _, _), TrKids(_, _, _, _, _, _), Rebuild(_, _, _)
\* results of a sequence of nodes, the first numbered id
TrSeq(H, s, id, d, g) == IF s = <<>> THEN <<>> ELSE <<Tr(H, s[1], id, d, g)>> \o TrSeq(H, Tail(s), id + Size(s[1]), d, g)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
Rebuild(t, i, rs) == IF i > Arity(t) THEN <<>> ELSE
    LET n == Len(KidsAt(t, i)) IN
    <<CASE Kind(t, i) = "n" -> rs[1].t [] Kind(t, i) \in {"o", "N"} -> [j \in 1..n |-> rs[j].t] [] OTHER -> t[i + 1]>>
    \o Rebuild(t, i + 1, SubSeq(rs, n + 1, Len(rs)))
TrKids(H, t, id, d, g, log) ==
    LET rs == TrSeq(H, KidsFrom(t, 1), id + 1, d, g) l2 == log \o Cat([i \in 1..Len(rs) |-> rs[i].log]) IN
    IF \A i \in 1..Len(rs) : rs[i].same THEN [t |-> t, ls |-> Orig(t, id), same |-> TRUE, log |-> l2]
    ELSE [t |-> <<t[1]>> \o Rebuild(t, 1, rs), ls |-> <<Line(t[1], 100 + id)>> \o Cat([i \in 1..Len(rs) |-> rs[i].ls]), same |-> FALSE, log |-> l2]
Tr(H, t, id, d, g) ==
    IF t[1] \notin DOMAIN H THEN TrKids(H, t, id, d, g, <<>>)
    ELSE LET k == H[t[1]] log == <<<<t[1], d, g>>>> same == [t |-> t, ls |-> Orig(t, id), same |-> TRUE, log |-> log]
             copied == <<Line(t[1], 100 + id)>> \o Tail(Orig(t, id)) IN
         CASE k = "keep" -> same
           [] k = "new" -> [t |-> New, ls |-> <<1>>, same |-> FALSE, log |-> log]
           [] k = "copy" -> [t |-> t, ls |-> copied, same |-> FALSE, log |-> log]
           [] k = "ren" -> IF NameIdx(t) = 0 \/ t[NameIdx(t)] = "nm" THEN same
                           ELSE [t |-> [t EXCEPT ![NameIdx(t)] = "nm"], ls |-> copied, same |-> FALSE, log |-> log]
           [] k = "kids" -> TrKids(H, t, id, d + 1, g \o "x", log)

\* nodes visited when descending stops at some types
RECURSIVE Vis(_, _), VisAll(_, _)
VisAll(S, s) == IF s = <<>> THEN <<>> ELSE Vis(S, s[1]) \o VisAll(S, Tail(s))
Vis(S, t) == <<t[1]>> \o (IF t[1] \in S THEN <<>> ELSE VisAll(S, KidsFrom(t, 1)))

Kinds == <<"keep", "new", "copy", "ren", "ren", "kids", "kids">>
Types_(t) == LET p == Pre(t) IN {p[i] : i \in 1..Len(p)}
\* up to n handlers for types of the tree
RECURSIVE Handlers(_, _)
Handlers(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE
    LET s == R(S) k == Kinds[R(1..7)] IN Append(Handlers(S \ {s}, n - 1), <<s, k>>)
Fn(l) == [x \in {l[i][1] : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i][1] = x][2]]
Leaves == {"Variable", "SymbolicTerm", "Function", "Id", "TheoryFunction", "TheoryOperatorDefinition"}
Gens(x) == Gen(R(Classes \cup (IF R(1..2) = 1 THEN Statements ELSE {"Rule", "body", "head", "Minimize", "Heuristic"})), R(1..3), x)
Trans == \E t \in {Gens(h)} : \E n \in One(1..4) : \E low \in One(BOOLEAN) :
         LET ty == Types_(t) S == IF low /\ ty \cap Leaves # {} THEN ty \cap Leaves ELSE ty IN
         \E l \in {Handlers(S, n)} : \E f \in One({"visit", "call"}) : \E d \in One(0..2) :
         \E r \in {Tr(Fn(l), t, 0, d, "g")} :
         h' = Append(h, [op |-> "ast_trans", tree |-> t, rules |-> l, form |-> f, d |-> d, tag |-> "g",
                         exp |-> [same |-> r.same, tree |-> r.t, lines |-> r.ls, log |-> IF Lang = "py" THEN r.log ELSE r.log]])
\* a sequence on its own
SeqAttrs(t) == {i \in 1..Arity(t) : Kind(t, i) = "N"}
RECURSIVE Before(_, _)
Before(t, i) == IF i = 1 THEN 0 ELSE Len(PreAll(KidsAt(t, i - 1))) + Before(t, i - 1)
TransSeq == \E t \in {Gens(h)} : \E n \in One(1..3) : \E l \in {Handlers(Types_(t), n)} :
    IF SeqAttrs(t) = {} THEN UNCHANGED h ELSE
    \E i \in One(SeqAttrs(t)) : \E rs \in {TrSeq(Fn(l), t[i + 1], 1 + Before(t, i), 5, "s")} :
    h' = Append(h, [op |-> "ast_trans_seq", tree |-> t, attr |-> Schema[t[1]][i][1], rules |-> l, d |-> 5, tag |-> "s",
                    exp |-> [same |-> \A j \in 1..Len(rs) : rs[j].same, tree |-> [j \in 1..Len(rs) |-> rs[j].t],
                             lines |-> Cat([j \in 1..Len(rs) |-> rs[j].ls]), log |-> Cat([j \in 1..Len(rs) |-> rs[j].log])]])
Visit == \E t \in {Gens(h)} : \E l \in {Handlers(Types_(t), R(0..2))} :
    h' = Append(h, [op |-> "ast_visit", tree |-> t, stop |-> [i \in 1..Len(l) |-> l[i][1]], exp |-> Vis({l[i][1] : i \in 1..Len(l)}, t)])
Init == h = <<>>
Next == \/ /\ Len(h) < 8
           /\ \E c \in One(1..8) : IF c = 1 THEN Visit ELSE IF c = 2 /\ Lang = "py" THEN TransSeq ELSE Trans
        \/ Len(h) = 8 /\ h' = Append(h, [op |-> "end"])
        \/ Len(h) = 9 /\ UNCHANGED h
Emit == Len(h) # 9 \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
