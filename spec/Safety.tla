------------------------------- MODULE Safety -------------------------------
(***************************************************************************)
(* Safety of statements (G05): which variables are bound is a least fixed   *)
(* point.  A positive atom binds the variables it can be matched against,   *)
(* an equation binds one side once the other is known, an interval its left *)
(* side, an aggregate its value once the global variables in it are known,  *)
(* and linear inequalities bind what they bound from both sides.  Variables *)
(* that occur only inside an element are local to it.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth
\* the way a program takes to the grounder: plain text or trees (G07)
Route(x) == IF Lang = "tree" THEN RandomElement({"ast", "str", "copy"}) ELSE "plain" \* (without pools what was global may be local)
VARIABLES h
vars == h
One(S) == {RandomElement(S)}
Pick(s) == s[RandomElement(1..Len(s))]
UnionOf(s, F(_)) == UNION {F(s[i]) : i \in 1..Len(s)}
JoinS(s, sep) == IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA x, y : x \o sep \o y, s[1], SubSeq(s, 2, Len(s)))

\* ---- terms: text, variables they bind when matched, variables they need; as linear term: variables with positive and negative sign
\* lin: 0 no, 1 yes, 2 not said
T(txt, b, n, lin, pos, neg) == [t |-> txt, b |-> b, n |-> n, lin |-> lin, pos |-> pos, neg |-> neg]
VarsT(t) == t.b \cup t.n
VarT(v) == T(v, {v}, {}, 1, {v}, {})
NumT(i) == T(ToString(i), {}, {}, 1, {}, {})
LinT(v, k) == CASE k = 1 -> T(v \o "+1", {v}, {}, 1, {v}, {}) [] k = 2 -> T("2*" \o v, {v}, {}, 1, {v}, {})
                [] k = 3 -> T(v \o "-3", {v}, {}, 1, {v}, {}) [] k = 4 -> T("1-" \o v, {v}, {}, 1, {}, {v})
                [] k = 5 -> T("3*" \o v \o "+2", {v}, {}, 1, {v}, {}) [] k = 6 -> T("(" \o v \o "+1)*2", {v}, {}, 1, {v}, {})
                [] OTHER -> T("-" \o v, {v}, {}, 2, {}, {v})
ArT(v, w, k) ==
    CASE k = 1 -> T(v \o "*" \o w, {}, {v, w}, 0, {}, {})
      [] k = 2 -> IF v = w THEN T(v \o "+" \o w, {}, {v}, 2, {v}, {}) ELSE T(v \o "+" \o w, {}, {v, w}, 1, {v, w}, {})
      [] k = 3 -> IF v = w THEN T(v \o "*" \o v, {}, {v}, 0, {}, {}) ELSE T(v \o "-" \o w, {}, {v, w}, 1, {v}, {w})
      [] k = 4 -> T(v \o "/2", {}, {v}, 0, {}, {}) [] k = 5 -> T("|" \o v \o "|", {}, {v}, 0, {}, {})
      [] k = 6 -> T(v \o "**2", {}, {v}, 0, {}, {}) [] k = 7 -> T(v \o "\\2", {}, {v}, 0, {}, {})
      [] OTHER -> T(v \o "&1", {}, {v}, 0, {}, {})
RNum(d) == NumT(RandomElement(0..9))
\* numeric terms over the variables in V
RArith(V) == LET k == RandomElement(1..10) IN
    IF k <= 4 THEN VarT(Pick(V)) ELSE IF k <= 6 THEN LinT(Pick(V), RandomElement(1..7)) ELSE IF k <= 8 THEN ArT(Pick(V), Pick(V), RandomElement(1..8)) ELSE RNum(1)
RECURSIVE RTerm(_, _)
RTerm(V, d) ==
    LET k == RandomElement(1..12) IN
    IF d = 0 \/ k <= 7 THEN RArith(V)
    ELSE IF k = 8 THEN (IF RandomElement(1..4) = 1 THEN T("1..2", {}, {}, 2, {}, {}) ELSE T(Pick(<<"a", "\"s\"", "f(1,2)">>), {}, {}, 0, {}, {}))
    ELSE LET x == RTerm(V, d - 1) y == RTerm(V, d - 1) IN
         CASE k = 9 -> T("f(" \o x.t \o "," \o y.t \o ")", x.b \cup y.b, x.n \cup y.n, 0, {}, {})
           [] k = 10 -> T("(" \o x.t \o "," \o y.t \o ")", x.b \cup y.b, x.n \cup y.n, 0, {}, {})
           [] k = 11 -> T("-g(" \o x.t \o ")", x.b, x.n, 0, {}, {})
           [] OTHER -> T("g(" \o x.t \o ")", x.b, x.n, 0, {}, {})

\* ---- literals: text, variables, what they bind given what, linear inequalities (pos - neg bounded from below), those that may be used
L(txt, vs, alts, iq, iqm) == [t |-> txt, v |-> vs, alts |-> alts, iq |-> iq, iqm |-> iqm]
Args(ts) == JoinS([i \in 1..Len(ts) |-> ts[i].t], ",")
BindsS(ts) == UnionOf(ts, LAMBDA x : x.b)
NeedsS(ts) == UnionOf(ts, LAMBDA x : x.n)
VarsS(ts) == BindsS(ts) \cup NeedsS(ts)
Terms(V, n, d) == TLCEval([i \in 1..n |-> RTerm(V, d)])
AtomOf(name, ts) == name \o (IF Len(ts) = 0 THEN "" ELSE "(" \o Args(ts) \o ")")
PosAtom(name, ts) == L(AtomOf(name, ts), VarsS(ts), {<<{}, BindsS(ts)>>}, {}, {})
NegAtom(name, ts, k) == L((IF k = 1 THEN "not " ELSE "not not ") \o AtomOf(name, ts), VarsS(ts), {}, {}, {})
\* an interval as argument: its bounds are needed (inequalities about it may be used)
Dots(v, w) == T(v \o ".." \o w, {}, {v, w}, 0, {}, {})
RAtom(V, pos) ==
    LET n == RandomElement(1..2)
        name == IF n = 2 THEN "p" ELSE Pick(<<"q", "r">>)
        ts == Terms(V, n, 1)
        k == RandomElement(1..8) IN
    IF k = 1 /\ pos THEN LET v == Pick(V) IN L(name \o (IF n = 2 THEN "(_," ELSE "(") \o v \o "..3)", {v}, {<<{}, {}>>}, {}, {[pos |-> {}, neg |-> {v}]})
    ELSE IF k = 2 /\ n = 2 THEN (LET u == <<ts[1]>> IN L((IF pos THEN "" ELSE "not ") \o "p(_," \o ts[1].t \o ")", VarsS(u), IF pos THEN {<<{}, BindsS(u)>>} ELSE {}, {}, {}))
    ELSE IF pos THEN PosAtom(name, ts) ELSE NegAtom(name, ts, RandomElement(1..2))
Ge(l, r) == [pos |-> l.pos \cup r.neg, neg |-> l.neg \cup r.pos]     \* l >= r
Both(l, r) == (VarsT(l) \cap VarsT(r)) # {}
Iq(S, l, r) == IF l.lin = 1 /\ r.lin = 1 /\ ~Both(l, r) THEN S ELSE {}
Iqm(S, l, r) == IF l.lin = 0 \/ r.lin = 0 \/ (l.lin = 1 /\ r.lin = 1 /\ ~Both(l, r)) THEN {} ELSE S
\* (inequalities over variables that occur on both sides: anything may come of them)
Loose(l, r) == {[pos |-> {x}, neg |-> {}] : x \in VarsT(l) \cup VarsT(r)} \cup {[pos |-> {}, neg |-> {x}] : x \in VarsT(l) \cup VarsT(r)}
Eq(l, r, k) == L(IF k = 1 THEN l.t \o "=" \o r.t ELSE "not " \o l.t \o "!=" \o r.t, VarsT(l) \cup VarsT(r), {<<VarsT(l), r.b>>, <<VarsT(r), l.b>>},
                 Iq({Ge(l, r), Ge(r, l)}, l, r), Iqm(Loose(l, r), l, r))
Cmp(l, r, op, neg) ==
    LET up == Ge(r, l) dn == Ge(l, r)
        le == (op \in {"<", "<="}) # neg IN
    L((IF neg THEN "not " ELSE "") \o l.t \o op \o r.t, VarsT(l) \cup VarsT(r), {}, Iq({IF le THEN up ELSE dn}, l, r), Iqm(Loose(l, r), l, r))
Neq(l, r, k) == L(IF k = 1 THEN l.t \o "!=" \o r.t ELSE "not " \o l.t \o "=" \o r.t, VarsT(l) \cup VarsT(r), {}, {}, {})
Chain(l, m, r) == LET c == Cmp(l, m, "<=", FALSE) e == Cmp(m, r, "<=", FALSE) IN L(l.t \o "<=" \o m.t \o "<=" \o r.t, c.v \cup e.v, {}, c.iq \cup e.iq, c.iqm \cup e.iqm)
RangeL(v, a, b, k) == L(IF k = 1 THEN v.t \o "=" \o a.t \o ".." \o b.t ELSE a.t \o ".." \o b.t \o "=" \o v.t, VarsT(v) \cup VarsT(a) \cup VarsT(b),
                       {<<VarsT(a) \cup VarsT(b), v.b>>}, Iq({Ge(v, a)}, v, a) \cup Iq({Ge(b, v)}, b, v), Iqm(Loose(v, a), v, a) \cup Iqm(Loose(b, v), b, v))
REnd(V) == IF RandomElement(1..2) = 1 THEN RNum(2) ELSE IF RandomElement(1..2) = 1 THEN VarT(Pick(V)) ELSE LinT(Pick(V), RandomElement(1..6))
Ops == <<"<", "<=", ">", ">=">>
REq(V) == LET k == RandomElement(1..6) x == VarT(Pick(V)) n == IF RandomElement(1..4) = 1 THEN 2 ELSE 1 IN
    CASE k <= 2 -> Eq(x, RTerm(V, 2), n) [] k = 3 -> Eq(RTerm(V, 2), x, n)
      [] k = 4 -> Eq(LinT(Pick(V), RandomElement(1..6)), LinT(Pick(V), RandomElement(1..6)), n)
      [] k = 5 -> Eq(ArT(Pick(V), Pick(V), RandomElement(1..8)), x, n)
      [] OTHER -> LET a == RTerm(V, 1) b == RTerm(V, 1) c == VarT(Pick(V)) e == VarT(Pick(V)) IN
                  Eq(T("(" \o a.t \o "," \o b.t \o ")", a.b \cup b.b, a.n \cup b.n, 0, {}, {}), T("(" \o c.t \o "," \o e.t \o ")", c.b \cup e.b, {}, 0, {}, {}), 1)
RPlain(V) ==
    LET k == RandomElement(1..14) IN
    CASE k <= 4 -> RAtom(V, TRUE) [] k <= 6 -> RAtom(V, FALSE) [] k <= 9 -> REq(V)
      [] k = 10 -> RangeL(VarT(Pick(V)), REnd(V), REnd(V), RandomElement(1..2))
      [] k = 11 -> Neq(VarT(Pick(V)), RArith(V), RandomElement(1..2))
      [] k = 12 -> IF RandomElement(1..3) = 1 THEN Chain(VarT(Pick(V)), VarT(Pick(V)), VarT(Pick(V))) ELSE Chain(RNum(1), VarT(Pick(V)), REnd(V))
      [] OTHER -> LET x == VarT(Pick(V)) y == REnd(V) o == Pick(Ops) n == RandomElement({TRUE, FALSE, FALSE}) IN
                  IF RandomElement(1..2) = 1 THEN Cmp(x, y, o, n) ELSE Cmp(y, x, o, n)

\* ---- what is bound
RECURSIVE Alts(_, _)
Alts(B, as) == LET N == B \cup UNION {a[2] : a \in {a \in as : a[1] \subseteq B}} IN IF N = B THEN B ELSE Alts(N, as)
RECURSIVE Sides(_, _)
\* variables bounded from below and from above (as far as that can be told without the numbers)
Sides(s, iq) ==
    LET lo == UNION {{v \in q.pos : (q.pos \ {v}) \subseteq s.hi /\ q.neg \subseteq s.lo} : q \in iq}
        hi == UNION {{v \in q.neg : q.pos \subseteq s.hi /\ (q.neg \ {v}) \subseteq s.lo} : q \in iq}
        n == [lo |-> s.lo \cup lo, hi |-> s.hi \cup hi] IN
    IF n = s THEN s ELSE Sides(n, iq)
Two(iq) == LET s == Sides([lo |-> {}, hi |-> {}], iq) IN s.lo \cap s.hi
IqVars(iq) == UNION {q.pos \cup q.neg : q \in iq}
AltsOf(ls) == UnionOf(ls, LAMBDA x : x.alts)
Must(ls) == LET iq == UnionOf(ls, LAMBDA x : x.iq) IN Alts(Two(iq), AltsOf(ls))
May(ls, gl) ==
    LET iq == UnionOf(ls, LAMBDA x : x.iq \cup x.iqm)
        \* (bounds that exclude each other bind everything that takes part in arithmetic)
        b == IF Two(iq) = {} THEN {} ELSE gl IN
    Alts(b, AltsOf(ls))

\* ---- elements: head terms, a literal (for conditional literals) and a condition
RCond(V) == TLCEval([i \in 1..RandomElement(1..2) |-> LET k == RandomElement(1..8) IN
    IF k <= 5 THEN RAtom(V, TRUE) ELSE IF k = 6 THEN RAtom(V, FALSE) ELSE IF k = 7 THEN Eq(VarT(Pick(V)), T("g(" \o V[1] \o ")", {V[1]}, {}, 0, {}, {}), 1)
    ELSE Neq(VarT(Pick(V)), RArith(V), 1)])
E(ts, lit, cond) == [ts |-> ts, lit |-> lit, cond |-> cond]
NoIq(ls) == [i \in 1..Len(ls) |-> [ls[i] EXCEPT !.iqm = {}]]
RElem(V) == E(Terms(V, RandomElement(1..2), 1), <<>>, RCond(V))
RConj(V) == E(<<>>, <<RAtom(V, RandomElement(BOOLEAN))>>, RCond(V))
RHead(V, nm) == LET ts == Terms(V, RandomElement(1..2), 1) IN E(ts, <<L(AtomOf(nm, ts), VarsS(ts), {}, {}, {})>>, RCond(V))
ElVars(e) == VarsS(e.ts) \cup UnionOf(e.lit \o e.cond, LAMBDA x : x.v)
CondT(e) == JoinS([i \in 1..Len(e.cond) |-> e.cond[i].t], ",")
\* local variables that are not bound, given the global ones
ElOpen(e, G) ==
    LET c == Alts(G, AltsOf(e.cond))
        w == Alts(G, AltsOf(e.cond \o e.lit))
        cv == UnionOf(e.cond, LAMBDA x : x.v) IN
    (cv \ c) \cup (ElVars(e) \ w)
\* ---- body: plain literals, conditional literals, aggregates; g: literal about the global variables, es: elements
\* (what an aggregate needs are the global variables in its elements: filled in once they are known)
B1(l) == [t |-> l.t, g |-> <<l>>, es |-> <<>>, as |-> <<>>]
Conj(e) == [t |-> e.lit[1].t \o " : " \o CondT(e), g |-> <<>>, es |-> <<e>>, as |-> <<>>]
ElT(e) == Args(e.ts) \o " : " \o CondT(e)
Aggr(V) ==
    LET es == TLCEval([i \in 1..RandomElement(1..2) |-> RElem(V)])
        fun == Pick(<<"#count", "#sum", "#max", "#sum+">>)
        a == fun \o "{ " \o JoinS([i \in 1..Len(es) |-> ElT(es[i])], "; ") \o " }"
        \* (terms over global names only: what stands outside of the elements is global)
        t == RArith(SubSeq(V, 1, 4))
        u == RArith(SubSeq(V, 1, 4))
        k == RandomElement(1..6) IN
    CASE k <= 3 -> [t |-> IF k = 1 THEN a \o " = " \o t.t ELSE t.t \o " = " \o a, g |-> <<L("", VarsT(t), {}, {}, {})>>, es |-> es, as |-> <<t.b>>]
      [] k = 4 -> [t |-> "not " \o t.t \o " = " \o a, g |-> <<L("", VarsT(t), {}, {}, {})>>, es |-> es, as |-> <<>>]
      [] k = 5 -> [t |-> t.t \o Pick(Ops) \o a, g |-> <<L("", VarsT(t), {}, {}, {})>>, es |-> es, as |-> <<>>]
      [] OTHER -> [t |-> t.t \o " <= " \o a \o " != " \o u.t, g |-> <<L("", VarsT(t) \cup VarsT(u), {}, {}, {})>>, es |-> es, as |-> <<>>]
RBody(V, W) == LET k == RandomElement(1..10) IN IF k <= 7 THEN B1(RPlain(V)) ELSE IF k = 8 THEN Conj(RConj(W)) ELSE Aggr(W)
\* head: text before and after the body, variables needed, elements
Hd(a, b, sep, vs, es) == [a |-> a, b |-> b, sep |-> sep, v |-> vs, es |-> es, im |-> <<>>]
\* (what is projected or modified is an atom of the program: it is matched like a body literal)
Im(hd, t) == [hd EXCEPT !.im = <<PosAtom("q", <<t>>)>>]
Heads(V, W) ==
    LET ts == Terms(V, RandomElement(0..2), 1) x == RArith(V) y == RArith(V) vs == VarsS(ts) k == RandomElement(1..15)
        e1 == RHead(W, "h") e2 == RHead(W, "k") IN
    CASE k <= 4 -> Hd(AtomOf("h", ts), "", ":- ", vs, <<>>)
      [] k = 5 -> Hd("", "", ":- ", {}, <<>>)
      [] k = 6 -> Hd("{ " \o e1.lit[1].t \o " : " \o CondT(e1) \o "; " \o e2.lit[1].t \o " : " \o CondT(e2) \o " }", "", ":- ", {}, <<e1, e2>>)
      [] k = 7 -> Hd(x.t \o " <= { " \o e1.lit[1].t \o " : " \o CondT(e1) \o " }", "", ":- ", VarsT(x), <<e1>>)
      [] k = 8 -> Hd(e1.lit[1].t \o " : " \o CondT(e1) \o "; " \o e2.lit[1].t \o " : " \o CondT(e2), "", ":- ", {}, <<e1, e2>>)
      [] k = 9 -> Hd("#show w(" \o x.t \o "," \o y.t \o ")", "", ": ", VarsT(x) \cup VarsT(y), <<>>)
      [] k = 10 -> Hd("", " [" \o x.t \o "@" \o y.t \o "," \o (IF ts = <<>> THEN "c" ELSE Args(ts)) \o "]", ":~ ", VarsT(x) \cup VarsT(y) \cup vs, <<>>)
      [] k = 11 -> Hd("#external h(" \o x.t \o ")", " [true]", ": ", VarsT(x), <<>>)
      [] k = 12 -> Hd("#edge (" \o x.t \o "," \o y.t \o ")", "", ": ", VarsT(x) \cup VarsT(y), <<>>)
      [] k = 13 -> Im(Hd("#heuristic q(" \o x.t \o ")", " [" \o y.t \o "@1,sign]", ": ", VarsT(x) \cup VarsT(y), <<>>), x)
      [] k = 14 -> Hd("#sum { " \o Args(e1.ts) \o " : " \o e1.lit[1].t \o " : " \o CondT(e1) \o " } >= " \o x.t, "", ":- ", VarsT(x), <<e1>>)
      [] OTHER -> Im(Hd("#project q(" \o x.t \o ")", "", ": ", VarsT(x), <<>>), x)

\* ---- the variables of a statement that are not bound: <<surely, possibly>>
\* (more: variables that are global because of another member of a pool)
Open(hd, body, more) ==
    LET es == hd.es \o FlattenSeq([i \in 1..Len(body) |-> body[i].es])
        gl == hd.v \cup UnionOf(body, LAMBDA b : UnionOf(b.g, LAMBDA x : x.v)) \cup (more \cap UnionOf(es, ElVars))
        loc == UnionOf(es, LAMBDA e : ElOpen(e, gl))
        lits == hd.im \o FlattenSeq([i \in 1..Len(body) |-> body[i].g])
        inEls(e) == ElVars(e) \cap gl
        aggs == UnionOf(body, LAMBDA b : {<<UnionOf(b.es, inEls), b.as[i]>> : i \in 1..Len(b.as)})
        \* (an arithmetic term that occurs outside of the element, too, is computed there: at least what is matched is needed)
        inEls2(e) == (BindsS(e.ts) \cup UNION {a[2] : a \in AltsOf(e.lit \o e.cond)}) \cap gl
        aggs2 == UnionOf(body, LAMBDA b : {<<UnionOf(b.es, inEls2), b.as[i]>> : i \in 1..Len(b.as)})
        ls == Append(lits, L("", {}, aggs, {}, {}))
        ls2 == Append(lits, L("", {}, aggs2, {}, {}))
        \* (global variables in elements have to be bound, too: they occur elsewhere)
        must == Must(ls) may == May(ls2, gl)
        \* (elements know the bounds of global variables, and may contradict them)
        all == UnionOf(ls, LAMBDA x : x.iq \cup x.iqm) \cup UnionOf(es, LAMBDA e : UnionOf(e.cond, LAMBDA x : x.iq \cup x.iqm)) IN
    <<(IF Two(all) = {} THEN loc ELSE {}) \cup (gl \ may), loc \cup (gl \ must)>>

Facts == "p(1,2). p(2,3). q(1). q(2). q(f(1,2)). r(3). r(g(1)). "
ToS(S) == SetToSeq(S)
Text(hd, body) == hd.a \o (IF hd.a = "" THEN "" ELSE " ") \o hd.sep \o JoinS([i \in 1..Len(body) |-> body[i].t], "; ") \o "." \o hd.b
Obs(text, o) == [op |-> "sf_prog", route |-> Route(text), text |-> text, exp |-> [unsafe |-> [must |-> ToS(o[1]), may |-> ToS(o[2] \ o[1])]]]
V4(d) == <<"X", "Y", "Z", "U">>
W6(d) == <<"X", "Y", "Z", "U", "LV", "MV">>
Stm(d) == \E hd \in {TLCEval(Heads(V4(1), W6(1)))} : \E body \in {TLCEval([i \in 1..RandomElement(1..4) |-> RBody(V4(2), W6(2))])} :
    h' = Append(h, Obs(Facts \o Text(hd, body), Open(hd, body, {})))
\* a pool stands for one statement for each of its members
Pool(d) == \E hd \in {TLCEval(Heads(V4(1), W6(1)))} : \E body \in {TLCEval([i \in 1..RandomElement(0..2) |-> RBody(V4(2), W6(2))])} : \E t1 \in {TLCEval(RTerm(V4(1), 1))} : \E t2 \in {TLCEval(RTerm(V4(2), 1))} :
           \E s \in One({TRUE, TRUE, FALSE}) :
    LET lit(t) == IF s THEN PosAtom("q", <<t>>) ELSE NegAtom("q", <<t>>, 1)
        o1 == Open(hd, Append(body, B1(lit(t1))), VarsT(t2))
        o2 == Open(hd, Append(body, B1(lit(t2))), VarsT(t1))
        l == [t |-> (IF s THEN "" ELSE "not ") \o "q(" \o t1.t \o ";" \o t2.t \o ")", g |-> <<>>, es |-> <<>>, as |-> <<>>] IN
    h' = Append(h, Obs(Facts \o Text(hd, Append(body, l)), <<o1[1] \cup o2[1], o1[2] \cup o2[2]>>))
Next == IF Len(h) >= Depth THEN UNCHANGED h ELSE \E y \in One(1..6) : IF y = 1 THEN Pool(1) ELSE Stm(1)
Init == h = <<>>
Spec == Init /\ [][Next]_vars
Emit == Len(h) < Depth \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
