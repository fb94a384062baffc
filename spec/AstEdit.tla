------------------------------ MODULE AstEdit ------------------------------
(***************************************************************************)
(* C13: a heap of mutable syntax-tree nodes.  Handles and sequence views    *)
(* refer to nodes; reading an attribute yields a reference to the child,    *)
(* a shallow copy shares the children, a deep copy nothing.  Every step     *)
(* gives the content of all handles and views afterwards.                   *)
(***************************************************************************)
EXTENDS AstTree, FiniteSets, Json, CSV, IOUtils
CONSTANTS Lang, Depth, OptShared   \* OptShared: the installed engine 5.6.2 does not copy optional children deeply
VARIABLES h, heap, hs, vs
vars == <<h, heap, hs, vs>>
One(S) == {RandomElement(S)}
R(S) == RandomElement(S)

\* in byte order and in symbol order
Strs == <<"", "!", "A", "Xy", "a", "ab", "b", "not">>
Syms == <<"#inf", "-3", "0", "7", "a", "b", "\"\"", "\"s\"", "f(1)", "f(2)", "g(1,a)", "#sup">>
Kind(t, i) == Schema[t][i][2]
Arity(t) == Len(Schema[t])
Live == {i \in 1..Len(hs) : hs[i] # 0}
LiveV == {i \in 1..Len(vs) : vs[i] # <<0, 0>>}

RECURSIVE Tree(_, _), Size(_, _), Reach(_, _), Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Trees(hp, s) == [i \in 1..Len(s) |-> Tree(hp, s[i])]
Tree(hp, x) == LET nd == hp[x] IN
    <<nd.t>> \o [i \in 1..Arity(nd.t) |->
        CASE Kind(nd.t, i) = "n" -> Tree(hp, nd.a[i]) [] Kind(nd.t, i) \in {"o", "N"} -> Trees(hp, nd.a[i]) [] OTHER -> nd.a[i]]
KidsAt(nd, i) == CASE Kind(nd.t, i) = "n" -> <<nd.a[i]>> [] Kind(nd.t, i) \in {"o", "N"} -> nd.a[i] [] OTHER -> <<>>
Size(hp, x) == 1 + Sum([i \in 1..Arity(hp[x].t) |-> LET k == KidsAt(hp[x], i) IN Sum([j \in 1..Len(k) |-> Size(hp, k[j])])])
Kids(nd) == UNION {LET k == KidsAt(nd, i) IN {k[j] : j \in 1..Len(k)} : i \in 1..Arity(nd.t)}
Reach(hp, x) == {x} \cup UNION {Reach(hp, k) : k \in Kids(hp[x])}

\* structural comparison
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE Cmp(_, _, _), Lex(_, _, _), LexS(_, _), Attrs(_, _, _, _)
Lex(hp, a, b) == IF a = <<>> \/ b = <<>> THEN Sgn(Len(a), Len(b)) ELSE
    LET c == Cmp(hp, a[1], b[1]) IN IF c # 0 THEN c ELSE Lex(hp, Tail(a), Tail(b))
LexS(a, b) == IF a = <<>> \/ b = <<>> THEN Sgn(Len(a), Len(b)) ELSE
    IF a[1] = b[1] THEN LexS(Tail(a), Tail(b)) ELSE Sgn(Idx(Strs, a[1]), Idx(Strs, b[1]))
CmpVal(hp, k, x, y) ==
    CASE k \in {"i", "b"} -> Sgn(x, y) [] k = "s" -> Sgn(Idx(Strs, x), Idx(Strs, y)) [] k = "y" -> Sgn(Idx(Syms, x), Idx(Syms, y))
      [] k = "n" -> Cmp(hp, x, y) [] k \in {"o", "N"} -> Lex(hp, x, y) [] k = "S" -> LexS(x, y)
      [] OTHER -> LET e == Enums[EnumOf(k)] IN Sgn(Idx(e, x), Idx(e, y))
Attrs(hp, a, b, i) == IF i > Arity(a.t) THEN 0 ELSE
    LET c == CmpVal(hp, Kind(a.t, i), a.a[i], b.a[i]) IN IF c # 0 THEN c ELSE Attrs(hp, a, b, i + 1)
Cmp(hp, x, y) == IF x = y THEN 0 ELSE IF hp[x].t # hp[y].t THEN Sgn(Idx(Types, hp[x].t), Idx(Types, hp[y].t)) ELSE Attrs(hp, hp[x], hp[y], 1)

------------------------------------------------------------------------------
(* random arguments: children are named by their handles *)
RECURSIVE RndSeq(_, _), RndArgs(_, _, _)
Rnd(k, x) ==
    CASE k = "i" -> R({0, 1, 7, 2147483647, -1}) [] k = "b" -> R({0, 1}) [] k = "s" -> R({Strs[i] : i \in 2..8}) [] k = "y" -> Syms[R(1..Len(Syms))]
      [] k = "n" -> R(Live) [] k = "o" -> IF R(1..3) = 1 THEN <<>> ELSE <<R(Live)>>
      [] k = "N" -> RndSeq("n", R(0..3)) [] k = "S" -> RndSeq("s", R(0..3))
      [] OTHER -> LET e == Enums[EnumOf(k)] IN e[R(1..Len(e))]
RndSeq(k, n) == IF n = 0 THEN <<>> ELSE Append(RndSeq(k, n - 1), Rnd(k, n))
RndArgs(t, i, x) == IF i > Arity(t) THEN <<>> ELSE <<Rnd(Kind(t, i), x)>> \o RndArgs(t, i + 1, x)
Val(k, d) == CASE k = "n" -> hs[d] [] k \in {"o", "N"} -> [i \in 1..Len(d) |-> hs[d[i]]] [] OTHER -> d
HasLoc(t) == t \notin NoLocation

\* the observation after a step
View(hp, v) == IF v = <<0, 0>> THEN "gone" ELSE
    IF Kind(hp[v[1]].t, v[2]) = "S" THEN hp[v[1]].a[v[2]] ELSE Trees(hp, hp[v[1]].a[v[2]])
Fits(hp, s, w) == /\ \A i \in 1..Len(s) : s[i] = 0 \/ Size(hp, s[i]) <= 30
                  /\ \A i \in 1..Len(w) : w[i] = <<0, 0>> \/ Size(hp, w[i][1]) <= 30
Push(e, r, hp, s, w) ==
    IF Fits(hp, s, w) THEN
        /\ h' = Append(h, e @@ [exp |-> [r |-> r, d |-> [i \in 1..Len(s) |-> IF s[i] = 0 THEN "gone" ELSE Tree(hp, s[i])],
                                         l |-> [i \in 1..Len(s) |-> IF s[i] = 0 \/ ~HasLoc(hp[s[i]].t) THEN 0 ELSE hp[s[i]].l],
                                         v |-> [i \in 1..Len(w) |-> View(hp, w[i])]]])
        /\ heap' = hp /\ hs' = s /\ vs' = w
    ELSE UNCHANGED vars
Room == Cardinality(Live) < 6 /\ Len(hs) < 16
With(x, i, v) == [heap EXCEPT ![x].a[i] = v]
\* storing children y in node x must not close a cycle
Acyclic(x, ys) == \A y \in ys : x \notin Reach(heap, y)
AttrIdx(t, ks) == {i \in 1..Arity(t) : Kind(t, i) \in ks}

Build == \E ty \in One(IF R(1..6) = 1 THEN {"TheoryUnparsedTermElement", "TheoryGuardDefinition"} ELSE {Types[i] : i \in 1..Len(Types)}) : \E d \in {RndArgs(ty, 1, h)} :
    LET a == [i \in 1..Arity(ty) |-> Val(Kind(ty, i), d[i])] IN
    Push([op |-> "t_build", t |-> ty, args |-> d], "ok", Append(heap, [t |-> ty, a |-> a, l |-> 1]), Append(hs, Len(heap) + 1), vs)
Get == \E x \in One(Live) : LET ty == heap[hs[x]].t IN
    IF AttrIdx(ty, {"n", "o"}) = {} THEN UNCHANGED vars ELSE
    \E i \in One(AttrIdx(ty, {"n", "o"})) : LET k == Kind(ty, i) v == heap[hs[x]].a[i] IN
    Push([op |-> "t_get", h |-> x, attr |-> Schema[ty][i][1], kind |-> k], IF k = "o" /\ v = <<>> THEN "none" ELSE "node",
         heap, IF k = "n" THEN Append(hs, v) ELSE hs \o v, vs)
Refs(k, v) == CASE k = "n" -> {v} [] k \in {"o", "N"} -> {v[i] : i \in 1..Len(v)} [] OTHER -> {}
Set == \E x \in One(Live) : \E i \in One(1..Arity(heap[hs[x]].t)) : LET ty == heap[hs[x]].t k == Kind(ty, i) IN
    \E d \in {Rnd(k, h)} : \E how \in One({"list", "tuple", "iter"}) :
    IF Acyclic(hs[x], Refs(k, Val(k, d)))
    THEN Push([op |-> "t_set", h |-> x, attr |-> Schema[ty][i][1], kind |-> k, val |-> d, how |-> how], "ok", With(hs[x], i, Val(k, d)), hs, vs)
    ELSE UNCHANGED vars
VKind(w) == Kind(heap[vs[w][1]].t, vs[w][2])
VVal(w) == heap[vs[w][1]].a[vs[w][2]]
\* an array from a view, possibly of the same attribute
SetView == IF LiveV = {} THEN UNCHANGED vars ELSE
    \E x \in One(Live) : \E w \in One(LiveV) : LET ty == heap[hs[x]].t S == AttrIdx(ty, {VKind(w)}) IN
    IF S = {} THEN UNCHANGED vars ELSE \E i \in One(S) :
    IF Acyclic(hs[x], Refs(VKind(w), VVal(w)))
    THEN Push([op |-> "t_setview", h |-> x, attr |-> Schema[ty][i][1], kind |-> VKind(w), v |-> w], "ok", With(hs[x], i, VVal(w)), hs, vs)
    ELSE UNCHANGED vars
\* from the attribute of a node itself
SetSelf == \E x \in One(Live) : LET ty == heap[hs[x]].t S == AttrIdx(ty, {"N", "S"}) IN
    IF S = {} THEN UNCHANGED vars ELSE \E i \in One(S) : \E j \in One({j \in S : Kind(ty, j) = Kind(ty, i)}) :
    \E how \in One(IF Lang = "py" THEN {"view", "gen", "rev"} ELSE {"view"}) :
    LET s == heap[hs[x]].a[j] IN
    Push([op |-> "t_setself", h |-> x, attr |-> Schema[ty][i][1], src |-> Schema[ty][j][1], kind |-> Kind(ty, i), how |-> how], "ok",
         With(hs[x], i, IF how = "rev" THEN [q \in 1..Len(s) |-> s[Len(s) + 1 - q]] ELSE s), hs, vs)
\* attributes the node does not have
Bad == \E x \in One(Live) : LET ty == heap[hs[x]].t IN
    \E n \in One({"body", "name", "term", "guards", "symbol", "guard", "operators", "arity", "head", "location"} \ ({Schema[ty][i][1] : i \in 1..Arity(ty)} \cup (IF HasLoc(ty) THEN {"location"} ELSE {}))) :
    Push([op |-> "t_bad", h |-> x, attr |-> n], "error", heap, hs, vs)
Copy == \E x \in One(Live) :
    Push([op |-> "t_copy", h |-> x], "ok", Append(heap, heap[hs[x]]), Append(hs, Len(heap) + 1), vs)
\* a deep copy: <<heap, id>>
RECURSIVE Deep(_, _), DeepSeq(_, _, _), DeepAttrs(_, _, _, _)
DeepSeq(hp, s, acc) == IF s = <<>> THEN <<hp, acc>> ELSE LET r == Deep(hp, s[1]) IN DeepSeq(r[1], Tail(s), Append(acc, r[2]))
DeepAttrs(hp, nd, i, acc) == IF i > Arity(nd.t) THEN <<hp, acc>> ELSE
    CASE Kind(nd.t, i) = "o" /\ OptShared -> DeepAttrs(hp, nd, i + 1, Append(acc, nd.a[i]))
      [] Kind(nd.t, i) = "n" -> LET r == Deep(hp, nd.a[i]) IN DeepAttrs(r[1], nd, i + 1, Append(acc, r[2]))
      [] Kind(nd.t, i) \in {"o", "N"} -> LET r == DeepSeq(hp, nd.a[i], <<>>) IN DeepAttrs(r[1], nd, i + 1, Append(acc, r[2]))
      [] OTHER -> DeepAttrs(hp, nd, i + 1, Append(acc, nd.a[i]))
Deep(hp, x) == LET r == DeepAttrs(hp, hp[x], 1, <<>>) IN <<Append(r[1], [t |-> hp[x].t, a |-> r[2], l |-> hp[x].l]), Len(r[1]) + 1>>
DeepCopy == \E x \in One(Live) : \E r \in {Deep(heap, hs[x])} : Push([op |-> "t_deep", h |-> x], "ok", r[1], Append(hs, r[2]), vs)
Update == \E x \in One(Live) : LET ty == heap[hs[x]].t IN \E U \in One(SUBSET (1..Arity(ty))) : \E d \in {RndArgs(ty, 1, h)} :
    LET nd == [heap[hs[x]] EXCEPT !.a = [i \in 1..Arity(ty) |-> IF i \in U THEN Val(Kind(ty, i), d[i]) ELSE heap[hs[x]].a[i]]] IN
    Push([op |-> "t_update", h |-> x, upd |-> [i \in 1..Arity(ty) |-> IF i \in U THEN <<Schema[ty][i][1], Kind(ty, i), d[i]>> ELSE <<>>]],
         IF U = {} THEN "same" ELSE "new", IF U = {} THEN heap ELSE Append(heap, nd), Append(hs, IF U = {} THEN hs[x] ELSE Len(heap) + 1), vs)
Drop == IF Cardinality(Live) < 4 THEN UNCHANGED vars ELSE \E x \in One(Live) : Push([op |-> "t_drop", h |-> x], "ok", heap, [hs EXCEPT ![x] = 0], vs)
DropV == IF LiveV = {} THEN UNCHANGED vars ELSE \E w \in One(LiveV) : Push([op |-> "v_drop", v |-> w], "ok", heap, hs, [vs EXCEPT ![w] = <<0, 0>>])
Compare == \E x \in One(Live) : \E y \in One(Live) : LET c == Cmp(heap, hs[x], hs[y]) IN
    Push([op |-> "t_cmp", a |-> x, b |-> y], <<c = 0, c < 0, c > 0>>, heap, hs, vs)
Loc == \E x \in One(Live) : \E n \in One(2..99) : IF ~HasLoc(heap[hs[x]].t) THEN UNCHANGED vars
    ELSE Push([op |-> "t_loc", h |-> x, n |-> n], "ok", [heap EXCEPT ![hs[x]].l = n], hs, vs)
NewView == \E x \in One(LET T == {y \in Live : AttrIdx(heap[hs[y]].t, {"S"}) # {}} IN IF T # {} /\ R(1..2) = 1 THEN T ELSE Live) : LET ty == heap[hs[x]].t S == AttrIdx(ty, {"N", "S"}) IN
    IF S = {} \/ Cardinality(LiveV) > 2 \/ Len(vs) > 8 THEN UNCHANGED vars
    ELSE \E i \in One(IF AttrIdx(ty, {"S"}) # {} THEN AttrIdx(ty, {"S"}) ELSE S) :
    Push([op |-> "v_new", h |-> x, attr |-> Schema[ty][i][1], kind |-> Kind(ty, i)], "ok", heap, hs, Append(vs, <<hs[x], i>>))

------------------------------------------------------------------------------
(* sequences *)
Norm(i, n) == IF i < 0 THEN i + n ELSE i
Ok(i, n) == Norm(i, n) >= 0 /\ Norm(i, n) < n
Clamp(i, n) == IF Norm(i, n) < 0 THEN 0 ELSE IF Norm(i, n) > n THEN n ELSE Norm(i, n)
Cut(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
EqEl(k, x, y) == IF k = "N" THEN Cmp(heap, x, y) = 0 ELSE x = y
Pos(k, s, x) == IF \E i \in 1..Len(s) : EqEl(k, s[i], x) THEN (CHOOSE i \in 1..Len(s) : EqEl(k, s[i], x) /\ \A j \in 1..(i - 1) : ~EqEl(k, s[j], x)) - 1 ELSE -1
IdxErr == "IndexError"
\* the slice a:b:c (c = 1 or 2 or -1), with absent bounds given as 99
Lo(a, n) == IF a = 99 THEN 0 ELSE Clamp(a, n)
Hi(b, n) == IF b = 99 THEN n ELSE Clamp(b, n)
SliceOf(s, a, b) == SubSeq(s, Lo(a, Len(s)) + 1, Hi(b, Len(s)))
PyOps == {"get", "set", "ins", "del", "app", "ext", "extv", "pop", "popi", "rev", "clr", "rem", "idx", "has", "cnt", "len", "iadd", "slice", "setslice", "delslice", "sset", "sdel", "iter"}
CcOps == {"get", "set", "ins", "del", "app", "pop", "clr", "len", "ref", "bad"}
SeqOp == IF LiveV = {} THEN UNCHANGED vars ELSE
    \E w \in One(LiveV) : \E f \in One(IF Lang = "py" THEN PyOps ELSE CcOps) :
    LET k == VKind(w) s == VVal(w) n == Len(s) e == IF k = "N" THEN "n" ELSE "s" IN
    \E i0 \in One(IF Lang = "py" THEN (-(n + 2))..(n + 2) ELSE IF f = "ins" THEN 0..n ELSE 0..(IF n = 0 THEN 0 ELSE n - 1)) : \E d \in {Rnd(e, h)} : \E ds \in {Rnd(k, h)} : \E j0 \in One(({99} \cup (-(n + 1))..(n + 1))) :
    \E w2 \in One({u \in LiveV : VKind(u) = k}) :
    LET x == Val(e, d) xs == Val(k, ds) own == vs[w][1]
        Do(r, s2) == IF e = "n" /\ ~Acyclic(own, Refs("N", s2)) THEN UNCHANGED vars ELSE IF Len(s2) > 5 THEN UNCHANGED vars
                     ELSE Push([op |-> "v_op", v |-> w, kind |-> k, f |-> f, i |-> i0, j |-> j0, x |-> d, xs |-> ds, w |-> w2], r, With(own, vs[w][2], s2), hs, vs)
        El(y) == IF e = "n" THEN Tree(heap, y) ELSE y
        Els(y) == [q \in 1..Len(y) |-> El(y[q])]
        a == IF i0 = n + 2 THEN 99 ELSE i0
        lo == Lo(a, n)
        sl == SliceOf(s, a, j0) IN
    CASE f = "get" -> IF n = 0 /\ Lang = "cc" THEN UNCHANGED vars ELSE IF Ok(i0, n) THEN Do(El(s[Norm(i0, n) + 1]), s) ELSE Do(IdxErr, s)
      [] f \in {"set", "ref"} -> IF n = 0 /\ Lang = "cc" THEN UNCHANGED vars ELSE IF Ok(i0, n) THEN Do("ok", [s EXCEPT ![Norm(i0, n) + 1] = x]) ELSE Do(IdxErr, s)
      [] f = "ins" -> Do("ok", Ins(s, Clamp(i0, n), x))
      [] f = "del" -> IF n = 0 /\ Lang = "cc" THEN UNCHANGED vars ELSE IF Ok(i0, n) THEN Do("ok", Cut(s, Norm(i0, n))) ELSE Do(IdxErr, s)
      [] f = "app" -> Do("ok", Append(s, x))
      [] f \in {"ext", "iadd"} -> Do("ok", s \o xs)
      [] f = "extv" -> Do("ok", s \o VVal(w2))
      [] f = "pop" -> IF n = 0 THEN (IF Lang = "cc" THEN UNCHANGED vars ELSE Do(IdxErr, s)) ELSE Do(El(s[n]), SubSeq(s, 1, n - 1))
      [] f = "popi" -> IF Ok(i0, n) THEN Do(El(s[Norm(i0, n) + 1]), Cut(s, Norm(i0, n))) ELSE Do(IdxErr, s)
      [] f = "rev" -> Do("ok", Rev(s))
      [] f = "clr" -> Do("ok", <<>>)
      [] f = "rem" -> IF Pos(k, s, x) >= 0 THEN Do("ok", Cut(s, Pos(k, s, x))) ELSE Do("ValueError", s)
      [] f = "idx" -> IF Pos(k, s, x) >= 0 THEN Do(Pos(k, s, x), s) ELSE Do("ValueError", s)
      [] f = "has" -> Do(Pos(k, s, x) >= 0, s)
      [] f = "cnt" -> Do(Cardinality({q \in 1..n : EqEl(k, s[q], x)}), s)
      [] f = "len" -> Do(n, s)
      [] f = "bad" -> Do("error", s)
      [] f = "iter" -> Do(Els(s), s)
      [] f = "slice" -> Do(Els(sl), s)
      [] f \in {"setslice", "delslice"} -> Do("TypeError", s)
      [] f = "sset" -> IF sl = <<>> THEN Do(IdxErr, s) ELSE Do("ok", [s EXCEPT ![lo + 1] = x])
      [] f = "sdel" -> IF sl = <<>> THEN Do(IdxErr, s) ELSE Do("ok", Cut(s, lo))
VCompare == IF LiveV = {} THEN UNCHANGED vars ELSE
    \E w \in One(LiveV) : \E w2 \in One(LiveV) : IF VKind(w) # "N" \/ VKind(w2) # "N" THEN UNCHANGED vars
    ELSE LET c == Lex(heap, VVal(w), VVal(w2)) IN Push([op |-> "v_cmp", v |-> w, w |-> w2], <<c = 0, c < 0>>, heap, hs, vs)

Init == /\ heap = <<[t |-> "Variable", a |-> <<"a">>, l |-> 1], [t |-> "SymbolicTerm", a |-> <<"7">>, l |-> 1]>>
        /\ hs = <<1, 2>> /\ vs = <<>>
        /\ h = <<[op |-> "t_init"]>>
Next == IF Len(h) < Depth THEN
           \E c \in One(1..40) :
           CASE c \in 1..6 -> IF Room THEN Build ELSE Drop
             [] c \in 7..8 -> IF Room THEN Get ELSE Drop
             [] c \in 9..12 -> Set
             [] c = 13 -> SetView [] c = 14 -> SetSelf [] c = 15 -> IF R(1..2) = 1 THEN Bad ELSE SetSelf
             [] c \in 16..17 -> IF Room THEN Copy ELSE Drop
             [] c \in 18..19 -> IF Room THEN DeepCopy ELSE Drop
             [] c \in 20..21 -> IF Room /\ Lang = "py" THEN Update ELSE Set
             [] c = 22 -> Drop [] c = 23 -> IF R(1..3) = 1 THEN DropV ELSE SeqOp
             [] c \in 24..25 -> Compare [] c = 26 -> Loc
             [] c \in 27..29 -> NewView
             [] c = 30 -> IF Lang = "py" THEN VCompare ELSE Compare
             [] OTHER -> SeqOp
        ELSE IF Len(h) = Depth THEN h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<heap, hs, vs>> ELSE UNCHANGED vars
Emit == Len(h) # Depth + 1 \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
