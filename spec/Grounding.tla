----------------------------- MODULE Grounding ------------------------------
(***************************************************************************)
(* What a non-ground program means (G03): its instances over all values,    *)
(* and their stable models by the definition (reduct and minimality).       *)
(*                                                                         *)
(* Values: <<0, n>> number, <<1, i>> constant, <<2, i>> -constant,          *)
(* <<3, v>> f(v), <<4, v>> -f(v), <<5, v, w>> the pair (v, w), <<6, v, w>> -(v, w).  *)
(* Atoms: <<predicate, sequence of values>>.                               *)
(* Terms: [k |-> "t"] the parameter of a part, [k |-> "any"] _,              *)
(* [k |-> "v", x], [k |-> "c", v], [k |-> operator, a, b].           *)
(* Literals: [k |-> "atom", s, p, as], [k |-> "cmp", s, l, gs],             *)
(* [k |-> "cond", h, c], [k |-> "agg", s, fn, l, r, es].                    *)
(* Statements: [t, hs, b, ...]; see Text.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Names == <<"a", "b", "c">>
Num(n) == <<0, n>>
Con(i) == <<1, i>>
Free == <<9, 0>>
Inf == <<-1, 0>>
Sup == <<10, 0>>
Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE 1
\* division truncates, the remainder has the sign of the dividend
Quo(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
Mod(a, b) == a - b * Quo(a, b)
RECURSIVE Pow(_, _)
Pow(a, b) == IF b = 0 THEN 1 ELSE a * Pow(a, b - 1)
Limit == 60
Cut(n) == IF n > 99 THEN 99 ELSE IF n < -99 THEN -99 ELSE n

\* functions: first the positive ones
Rank(c) == CASE c = 5 -> 4 [] c = 4 -> 5 [] OTHER -> c
RECURSIVE Cmp(_, _)
Cmp(v, w) ==
    IF v[1] # w[1] THEN (IF Rank(v[1]) < Rank(w[1]) THEN -1 ELSE 1)
    ELSE IF v[1] <= 2 THEN (IF v[2] < w[2] THEN -1 ELSE IF v[2] = w[2] THEN 0 ELSE 1)
    ELSE IF v[1] \in {-1, 10} THEN 0
    ELSE IF v[1] >= 5 THEN (LET c == Cmp(v[2], w[2]) IN IF c # 0 THEN c ELSE Cmp(v[3], w[3]))
    ELSE Cmp(v[2], w[2])
Rel(op, v, w) == CASE op = "=" -> v = w [] op = "!=" -> v # w [] op = "<" -> Cmp(v, w) < 0 [] op = "<=" -> Cmp(v, w) <= 0
    [] op = ">" -> Cmp(v, w) > 0 [] OTHER -> Cmp(v, w) >= 0

Nums(S) == {v[2] : v \in {x \in S : x[1] = 0}}
Neg(v) == CASE v[1] = 0 -> <<0, -v[2]>> [] v[1] = 1 -> <<2, v[2]>> [] v[1] = 2 -> <<1, v[2]>> [] v[1] = 3 -> <<4, v[2]>> [] v[1] = 4 -> <<3, v[2]>> [] v[1] = 5 -> <<6, v[2], v[3]>> [] OTHER -> <<5, v[2], v[3]>>
RECURSIVE Ev(_, _)
Ev(t, e) ==
    CASE t.k = "v" -> {e[t.x]}
      [] t.k = "t" -> {e["t"]}
      [] t.k = "c" -> {t.v}
      [] t.k = "f" -> {<<3, v>> : v \in Ev(t.a, e)}
      [] t.k = "pair" -> LET A == Ev(t.a, e) B == Ev(t.b, e) IN {<<5, v, w>> : v \in A, w \in B}
      [] t.k = "neg" -> {Neg(v) : v \in {x \in Ev(t.a, e) : x[1] \notin {-1, 10}}}
      [] t.k = "abs" -> {Num(Abs(n)) : n \in Nums(Ev(t.a, e))}
      [] t.k = "pool" -> Ev(t.a, e) \cup Ev(t.b, e)
      [] t.k = "up" -> {Num(m - 1) : m \in UNION {1..(IF n > 4 THEN 4 ELSE n) : n \in Nums(Ev(t.a, e))}} \cup {v \in Ev(t.a, e) : v[1] # 0}
      [] OTHER ->
        LET A == Nums(Ev(t.a, e)) B == Nums(Ev(t.b, e)) IN
        CASE t.k = "+" -> {Num(Cut(n + m)) : n \in A, m \in B}
          [] t.k = "-" -> {Num(Cut(n - m)) : n \in A, m \in B}
          [] t.k = "*" -> {Num(Cut(n * m)) : n \in A, m \in B}
          [] t.k = "/" -> {Num(Quo(n, m)) : n \in A, m \in B \ {0}}
          [] t.k = "mod" -> {Num(Mod(n, m)) : n \in A, m \in B \ {0}}
          [] OTHER -> {Num(x) : x \in UNION {n..m : n \in A, m \in B}}
RECURSIVE Tuples(_)
Tuples(ss) == IF ss = <<>> THEN {<<>>} ELSE LET R == Tuples(Tail(ss)) IN {<<v>> \o r : v \in Head(ss), r \in R}
Args(as, e) == Tuples([i \in 1..Len(as) |-> Ev(as[i], e)])

-----------------------------------------------------------------------------
(* Substitutions *)
Dom == {"X", "Y", "Z", "N", "L", "M", "t"}
None == [x \in Dom |-> Free]
RECURSIVE TVars(_)
TVars(t) == CASE t.k = "v" -> {t.x} [] t.k \in {"c", "t", "any"} -> {} [] t.k \in {"f", "neg", "abs", "up"} -> TVars(t.a) [] OTHER -> TVars(t.a) \cup TVars(t.b)
U(x) == IF x = "N" THEN {Num(n) : n \in (-20)..60} \cup {Con(1), Con(2), Con(3), <<3, Num(1)>>, Inf, Sup} ELSE {Num(n) : n \in (-20)..20} \cup {Con(1), Con(2), Con(3)}
RECURSIVE Match(_, _, _, _)
\* variables that are arguments themselves take the values of the atom, others are found by trying; the rest is checked later
Match(as, vs, i, e) ==
    IF i > Len(as) THEN {e}
    ELSE IF as[i].k = "v"
    THEN (IF e[as[i].x] = Free THEN Match(as, vs, i + 1, [e EXCEPT ![as[i].x] = vs[i]])
          ELSE IF e[as[i].x] = vs[i] THEN Match(as, vs, i + 1, e) ELSE {})
    ELSE IF as[i].k = "neg" /\ as[i].a.k = "v" /\ e[as[i].a.x] = Free
    THEN (IF vs[i][1] \in {-1, 10} THEN {} ELSE Match(as, vs, i + 1, [e EXCEPT ![as[i].a.x] = Neg(vs[i])]))
    ELSE LET fs == {x \in TVars(as[i]) : e[x] = Free} IN
         IF Cardinality(fs) # 1 THEN Match(as, vs, i + 1, e)
         ELSE LET x == CHOOSE y \in fs : TRUE
                  fits == {u \in U(x) : vs[i] \in Ev(as[i], [e EXCEPT ![x] = u])}
              IN UNION {Match(as, vs, i + 1, [e EXCEPT ![x] = u]) : u \in fits}
RECURSIVE Join(_, _, _, _)
Join(ls, i, P, E) ==
    IF i > Len(ls) \/ E = {} THEN E
    ELSE IF ls[i].k = "atom" /\ ls[i].s = 0
         THEN LET A == {a \in P : a[1] = ls[i].p} IN Join(ls, i + 1, P, UNION {UNION {Match(ls[i].as, a[2], 1, e) : a \in A} : e \in E})
         ELSE IF ls[i].k = "cmp" /\ ls[i].s = 0 /\ Len(ls[i].gs) = 1 /\ ls[i].l.k = "v" /\ ls[i].gs[1][1] = "="
         THEN Join(ls, i + 1, P, UNION {IF e[ls[i].l.x] # Free \/ \E x \in TVars(ls[i].gs[1][2]) : e[x] = Free THEN {e}
                                        ELSE {[e EXCEPT ![ls[i].l.x] = v] : v \in Ev(ls[i].gs[1][2], e)} : e \in E})
         ELSE Join(ls, i + 1, P, E)
Joined(ls, P, E) == Join(SelectSeq(ls, LAMBDA l : l.k = "cmp"), 1, P, Join(ls, 1, P, E))
AVars(as) == UNION {TVars(as[i]) : i \in 1..Len(as)}
LVars(l) == CASE l.k = "atom" -> AVars(l.as)
    [] l.k = "cmp" -> TVars(l.l) \cup UNION {TVars(l.gs[i][2]) : i \in 1..Len(l.gs)}
    [] l.k = "agg" -> UNION {TVars(g[2]) : g \in {l.l, l.r}}
    [] OTHER -> {}
RECURSIVE Fill(_, _)
Fill(vs, E) == IF vs = {} THEN E
    ELSE LET x == CHOOSE v \in vs : TRUE IN Fill(vs \ {x}, UNION {IF e[x] # Free THEN {e} ELSE {[e EXCEPT ![x] = u] : u \in U(x)} : e \in E})
\* assignments of N = #sum{...} and X = t..t' are found by trying
BVars(b) == UNION {LVars(b[i]) : i \in 1..Len(b)}

-----------------------------------------------------------------------------
(* Ground literals: [k |-> "or", as |-> set of [s, a]] (some instance),       *)
(* [k |-> "cond", es |-> set of [h, c]], [k |-> "agg", ...], and "no"         *)
False == [s |-> 0, a |-> <<"#false", <<>>>>]
No == [k |-> "no"]
Yes == [k |-> "or", as |-> {[s |-> 1, a |-> <<"#false", <<>>>>]}]
CmpHolds(l, e) ==
    LET n == Len(l.gs)
        T == Tuples(<<Ev(l.l, e)>> \o [i \in 1..n |-> Ev(l.gs[i][2], e)])
        ok(t) == IF l.s = 1 THEN \E i \in 1..n : ~Rel(l.gs[i][1], t[i], t[i + 1]) ELSE \A i \in 1..n : Rel(l.gs[i][1], t[i], t[i + 1])
    IN \E t \in T : ok(t)
Simple(l, e) == {[s |-> l.s, a |-> <<l.p, vs>>] : vs \in Args(l.as, e)}
\* local instances of a list of literals: sets of [s, a], or {False} where a comparison fails
LocalEnvs(c, P, e) == Fill(BVars(c), Joined(c, P, {e}))
One1(S) == CHOOSE x \in S : TRUE
LocalCond(c, e) == UNION {IF c[i].k = "cmp" THEN (IF CmpHolds(c[i], e) THEN {} ELSE {False})
                          ELSE LET A == Simple(c[i], e) IN IF A = {} THEN {False} ELSE {One1(A)} : i \in 1..Len(c)}
Conds(c, P, e) == {<<f, LocalCond(c, f)>> : f \in LocalEnvs(c, P, e)}
Good(S) == {x \in S : False \notin x[2]}
Wild(l) == \E i \in 1..Len(l.as) : l.as[i].k = "any"
GLit(l, e, P) ==
    CASE l.k = "atom" /\ Wild(l) ->
            LET A == {a \in P : a[1] = l.p /\ Len(a[2]) = Len(l.as) /\ \A i \in 1..Len(l.as) : l.as[i].k = "any" \/ a[2][i] \in Ev(l.as[i], e)} IN
            IF l.s = 1 THEN [k |-> "cond", es |-> {[h |-> [s |-> 1, a |-> a], c |-> {}] : a \in A}]
            ELSE IF l.s = 2 THEN [k |-> "ex", as |-> A]
            ELSE IF A = {} THEN No ELSE [k |-> "or", as |-> {[s |-> 0, a |-> a] : a \in A}]
      [] l.k = "atom" -> LET A == Simple(l, e) IN IF A = {} THEN No ELSE [k |-> "or", as |-> A]
      [] l.k = "cmp" -> IF CmpHolds(l, e) THEN Yes ELSE No
      [] l.k = "cond" -> [k |-> "cond", es |-> {[h |-> IF l.h.k = "cmp" THEN (IF CmpHolds(l.h, x[1]) THEN One1(Yes.as) ELSE False) ELSE One1(Simple(l.h, x[1])), c |-> x[2]] : x \in Good(Conds(l.c, P, e))}]
      [] OTHER ->
        LET G == {IF g[1] = "" THEN <<"", <<0, 0>>>> ELSE <<g[1], One1(Ev(g[2], e))>> : g \in {l.l}}
            H == {IF g[1] = "" THEN <<"", <<0, 0>>>> ELSE <<g[1], One1(Ev(g[2], e))>> : g \in {l.r}} IN
        [k |-> "agg", s |-> l.s, fn |-> l.fn, l |-> One1(G), r |-> One1(H),
         es |-> UNION {UNION {{[t |-> ts, c |-> x[2]] : ts \in Args(l.es[i].t, x[1])} : x \in Good(Conds(l.es[i].c, P, e))} : i \in 1..Len(l.es)}]

Guarded(l, e) == l.k # "agg" \/ \A g \in {l.l, l.r} : g[1] = "" \/ Ev(g[2], e) # {}
Body(b, e, P) == [i \in 1..Len(b) |-> IF Guarded(b[i], e) THEN GLit(b[i], e, P) ELSE No]
\* the atoms of P can be derived at all
May(b, P) == \A i \in 1..Len(b) : b[i].k # "no" /\ (b[i].k = "or" => \E x \in b[i].as : x.s # 0 \/ x.a \in P)
Envs(st, P, z) == Fill(BVars(st.b), Joined(st.b, P, {[None EXCEPT !["t"] = z]}))
\* instances of a statement
HeadElems(hs, e, P) == UNION {UNION {{[a |-> <<hs[i].p, vs>>, c |-> x[2]] : vs \in Args(hs[i].as, x[1])} : x \in Good(Conds(hs[i].c, P, e))} : i \in 1..Len(hs)}
Inst(st, e, P) ==
    [t |-> st.t, lo |-> st.lo, hi |-> st.hi, b |-> Body(st.b, e, P), hs |-> HeadElems(st.hs, e, P),
     w |-> IF st.t = "edge" THEN Args(st.ts, e) ELSE IF st.t = "min" THEN Args(<<st.w, st.prio>> \o st.ts, e) ELSE IF st.t = "term" THEN {<<v>> : v \in Ev(st.w, e)} ELSE {}]
GroundOne(st, P, z) ==
    LET es == SetToSeq(Envs(st, P, z))
        all == [i \in 1..Len(es) |-> Inst(st, es[i], P)]
    IN SelectSeq(all, LAMBDA r : May(r.b, P) /\ (r.t = "norm" => r.hs # {}))
\* stage: the parts that are grounded together, with the values of their parameters
RECURSIVE GroundAll(_, _, _, _)
GroundAll(prg, stage, i, P) == IF i > Len(prg) THEN <<>>
    ELSE (IF prg[i].t = "sig" THEN <<>> ELSE FoldSet(LAMBDA s, r : r \o GroundOne(prg[i], P, s[2]), <<>>, {s \in stage : s[1] = prg[i].part}))
         \o GroundAll(prg, stage, i + 1, P)
Heads(gr) == UNION {{x.a : x \in gr[i].hs} : i \in {j \in 1..Len(gr) : gr[j].t \in {"norm", "disj", "choice", "ext"}}}
TooBig(P) == Cardinality(P) > 40 \/ \E a \in P : \E i \in 1..Len(a[2]) : a[2][i][1] = 0 /\ Abs(a[2][i][2]) > 15
RECURSIVE Reach(_, _, _)
Reach(prg, stage, P) == LET Q == P \cup Heads(GroundAll(prg, stage, 1, P)) IN IF Q = P \/ TooBig(Q) THEN Q ELSE Reach(prg, stage, Q)
\* what is said about atoms that nothing can derive is settled when it is grounded
FLit(l, P) == IF l.a \in P THEN l ELSE IF l.s = 1 THEN [s |-> 1, a |-> False.a] ELSE False
FzCond(c, P) == {FLit(l, P) : l \in c}
FBody(g, P) ==
    CASE g.k = "or" -> [g EXCEPT !.as = {FLit(l, P) : l \in @}]
      [] g.k = "cond" -> [g EXCEPT !.es = {[h |-> FLit(x.h, P), c |-> FzCond(x.c, P)] : x \in @}]
      [] g.k = "agg" -> [g EXCEPT !.es = {[t |-> x.t, c |-> FzCond(x.c, P)] : x \in @}]
      [] OTHER -> g
Freeze(gr, P) == [i \in 1..Len(gr) |-> [gr[i] EXCEPT !.b = [j \in 1..Len(gr[i].b) |-> FBody(gr[i].b[j], P)], !.hs = {[a |-> x.a, c |-> FzCond(x.c, P)] : x \in @}]]

-----------------------------------------------------------------------------
(* Truth: X the interpretation, Y the model of the reduct *)
LitIn(l, X, Y) == CASE l.s = 0 -> l.a \in Y [] l.s = 1 -> l.a \notin X [] OTHER -> l.a \in X
All(c, X, Y) == \A l \in c : LitIn(l, X, Y)
SumOf(T) == FoldSet(LAMBDA t, s : s + (IF t # <<>> /\ t[1][1] = 0 THEN t[1][2] ELSE 0), 0, T)
MinV(S, d) == IF S = {} THEN d ELSE CHOOSE v \in S : \A w \in S : Cmp(v, w) <= 0
MaxV(S, d) == IF S = {} THEN d ELSE CHOOSE v \in S : \A w \in S : Cmp(v, w) >= 0
AggVal(fn, T) == CASE fn = "#count" -> Num(Cardinality(T))
    [] fn = "#sum" -> Num(SumOf(T))
    [] fn = "#sum+" -> Num(SumOf({t \in T : t # <<>> /\ t[1][1] = 0 /\ t[1][2] > 0}))
    [] fn = "#min" -> MinV({t[1] : t \in T}, Sup)
    [] OTHER -> MaxV({t[1] : t \in T}, Inf)
AggHolds(g, X, Y) == LET v == AggVal(g.fn, {x.t : x \in {y \in g.es : All(y.c, X, Y)}}) IN
    (g.l[1] = "" \/ Rel(g.l[1], g.l[2], v)) /\ (g.r[1] = "" \/ Rel(g.r[1], v, g.r[2]))
GHolds(g, X, Y) ==
    CASE g.k = "or" -> \E l \in g.as : LitIn(l, X, Y)
      [] g.k = "ex" -> g.as \cap X # {}
      [] g.k = "cond" -> \A x \in g.es : All(x.c, X, Y) => LitIn(x.h, X, Y)
      [] g.s = 0 -> AggHolds(g, X, Y)
      [] g.s = 1 -> ~AggHolds(g, X, X)
      [] OTHER -> AggHolds(g, X, X)
BHolds(r, X, Y) == \A i \in 1..Len(r.b) : GHolds(r.b[i], X, Y)
HHolds(r, X, Y) ==
    CASE r.t = "norm" -> \A x \in r.hs : x.a \in Y
      [] r.t = "disj" -> \E x \in r.hs : All(x.c, X, Y) /\ x.a \in Y
      [] r.t = "choice" -> \A x \in r.hs : All(x.c, X, Y) /\ x.a \in X => x.a \in Y
      [] OTHER -> TRUE
Bounds(r, X) == r.t = "choice" => LET n == Cardinality({x.a : x \in {y \in r.hs : All(y.c, X, X) /\ y.a \in X}}) IN (r.lo = 0 \/ r.lo <= n) /\ (r.hi = 0 \/ n <= r.hi - 1)
Sat(gr, X, Y) == \A i \in 1..Len(gr) : BHolds(gr[i], X, X) /\ BHolds(gr[i], X, Y) => HHolds(gr[i], X, Y)
\* what every model has
Sure(l, C) == l.k = "or" /\ \E x \in l.as : x.s = 0 /\ x.a \in C
RECURSIVE Facts(_, _)
Facts(gr, C) ==
    LET D == C \cup UNION {{x.a : x \in gr[i].hs} : i \in {j \in 1..Len(gr) : gr[j].t = "norm" /\ \A q \in 1..Len(gr[j].b) : gr[j].b[q] = Yes \/ Sure(gr[j].b[q], C)}}
    IN IF D = C THEN C ELSE Facts(gr, D)
RECURSIVE Closure(_)
Closure(E) == LET G == E \cup {<<x[1][1], x[2][2]>> : x \in {z \in E \X E : z[1][2] = z[2][1]}}
    IN IF G = E THEN E ELSE Closure(G)
Acyclic(gr, X) == LET E == UNION {gr[i].w : i \in {j \in 1..Len(gr) : gr[j].t = "edge" /\ BHolds(gr[j], X, X)}} IN \A x \in Closure(E) : x[1] # x[2]
Stable(gr, C, Un) ==
    {X \in {C \cup S : S \in SUBSET Un} :
        /\ Acyclic(gr, X)
        /\ Sat(gr, X, X)
        /\ \A i \in 1..Len(gr) : BHolds(gr[i], X, X) => Bounds(gr[i], X)
        /\ \A a \in X : <<"-" \o a[1], a[2]>> \notin X
        /\ \A T \in SUBSET (X \ C) : T # X \ C => ~Sat(gr, X, C \cup T)}

-----------------------------------------------------------------------------
(* Text *)
RECURSIVE VText(_)
VText(v) == CASE v[1] = -1 -> "#inf" [] v[1] = 10 -> "#sup" [] v[1] = 0 -> ToString(v[2]) [] v[1] = 1 -> Names[v[2]] [] v[1] = 2 -> "-" \o Names[v[2]] [] v[1] = 3 -> "f(" \o VText(v[2]) \o ")"
    [] v[1] = 4 -> "-f(" \o VText(v[2]) \o ")" [] OTHER -> (IF v[1] = 6 THEN "-(" ELSE "(") \o VText(v[2]) \o "," \o VText(v[3]) \o ")"
Sep(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))
Paren(as) == IF as = <<>> THEN "" ELSE "(" \o Sep(as, ",") \o ")"
AText(a) == a[1] \o Paren([i \in 1..Len(a[2]) |-> VText(a[2][i])])
RECURSIVE TText(_)
TText(t) == CASE t.k = "v" -> t.x [] t.k = "t" -> "t" [] t.k = "any" -> "_" [] t.k = "c" -> VText(t.v)
    [] t.k = "f" -> "f(" \o TText(t.a) \o ")" [] t.k = "pair" -> "(" \o TText(t.a) \o "," \o TText(t.b) \o ")"
    [] t.k = "neg" -> "-(" \o TText(t.a) \o ")" [] t.k = "abs" -> "|" \o TText(t.a) \o "|"
    [] t.k = "pool" -> "(" \o TText(t.a) \o ";" \o TText(t.b) \o ")" [] t.k = "up" -> "@up(" \o TText(t.a) \o ")"
    [] t.k = "mod" -> "(" \o TText(t.a) \o "\\" \o TText(t.b) \o ")"
    [] OTHER -> "(" \o TText(t.a) \o t.k \o TText(t.b) \o ")"
Sign(s) == CASE s = 0 -> "" [] s = 1 -> "not " [] OTHER -> "not not "
PText(p, as) == p \o Paren([i \in 1..Len(as) |-> TText(as[i])])
RECURSIVE LText(_), LsText(_)
LText(l) ==
    CASE l.k = "atom" -> Sign(l.s) \o PText(l.p, l.as)
      [] l.k = "cmp" -> Sign(l.s) \o TText(l.l) \o FoldLeft(LAMBDA a, g : a \o g[1] \o TText(g[2]), "", l.gs)
      [] l.k = "cond" -> LText(l.h) \o " : " \o LsText(l.c)
      [] OTHER -> Sign(l.s) \o (IF l.l[1] = "" THEN "" ELSE TText(l.l[2]) \o " " \o l.l[1] \o " ") \o l.fn \o "{"
          \o Sep([i \in 1..Len(l.es) |-> Sep([j \in 1..Len(l.es[i].t) |-> TText(l.es[i].t[j])], ",") \o (IF l.es[i].c = <<>> THEN "" ELSE ":" \o LsText(l.es[i].c))], "; ") \o "}"
          \o (IF l.r[1] = "" THEN "" ELSE " " \o l.r[1] \o " " \o TText(l.r[2]))
LsText(c) == Sep([i \in 1..Len(c) |-> LText(c[i])], ", ")
BText(b) == Sep([i \in 1..Len(b) |-> LText(b[i]) \o (IF i = Len(b) THEN "" ELSE IF b[i].k = "cond" THEN "; " ELSE ", ")], "")
HElem(h) == PText(h.p, h.as) \o (IF h.c = <<>> THEN "" ELSE ":" \o LsText(h.c))
HText(hs, sep) == Sep([i \in 1..Len(hs) |-> HElem(hs[i])], sep)
If(b) == IF b = <<>> THEN "." ELSE " :- " \o BText(b) \o "."
SText(st) ==
    CASE st.t \in {"norm", "disj"} -> HText(st.hs, "; ") \o If(st.b)
      [] st.t = "choice" -> (IF st.lo = 0 THEN "" ELSE ToString(st.lo) \o " ") \o "{" \o HText(st.hs, "; ") \o "}" \o (IF st.hi = 0 THEN "" ELSE " " \o ToString(st.hi - 1)) \o If(st.b)
      [] st.t = "ext" -> "#external " \o HText(st.hs, ";") \o (IF st.b = <<>> THEN "." ELSE " : " \o BText(st.b) \o ".")
      [] st.t = "min" -> ":~ " \o BText(st.b) \o ". [" \o TText(st.w) \o "@" \o TText(st.prio) \o FoldLeft(LAMBDA a, t : a \o "," \o TText(t), "", st.ts) \o "]"
      [] st.t = "edge" -> "#edge (" \o TText(st.ts[1]) \o "," \o TText(st.ts[2]) \o ")" \o (IF st.b = <<>> THEN "." ELSE " : " \o BText(st.b) \o ".")
      [] st.t = "term" -> "#show " \o TText(st.w) \o (IF st.b = <<>> THEN "." ELSE " : " \o BText(st.b) \o ".")
      [] OTHER -> IF st.p = "" THEN "#show." ELSE "#show " \o st.p \o "/" \o ToString(st.n) \o "."

-----------------------------------------------------------------------------
(* What a user sees of a model *)
Shown(prg, gr, X) ==
    LET sigs == {<<prg[i].p, prg[i].n>> : i \in {j \in 1..Len(prg) : prg[j].t = "sig"}}
        terms == UNION {{VText(v[1]) : v \in gr[i].w} : i \in {j \in 1..Len(gr) : gr[j].t = "term" /\ BHolds(gr[j], X, X)}}
        atoms == {a \in X : (sigs = {} \/ <<a[1], Len(a[2])>> \in sigs)}
    IN {AText(a) : a \in atoms} \cup terms
Costs(gr, X) ==
    LET T == {t \in UNION {gr[i].w : i \in {j \in 1..Len(gr) : gr[j].t = "min" /\ BHolds(gr[j], X, X)}} : t[1][1] = 0 /\ t[2][1] = 0}
        ps == {t[2][2] : t \in T}
        c(p) == SumOf({t \in T : t[2][2] = p})
        s == SetToSortSeq({p \in ps : c(p) # 0}, LAMBDA a, b : a > b)
    IN [i \in 1..Len(s) |-> [prio |-> s[i], cost |-> c(s[i])]]
=============================================================================
