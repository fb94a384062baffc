------------------------------ MODULE TermEval ------------------------------
(***************************************************************************)
(* Evaluation of terms (G04): 32-bit integers with their corner values,     *)
(* division and modulo (truncating), powers, bits, absolute values,         *)
(* negation of numbers and functions, intervals, inversion of linear terms, *)
(* comparisons.  A result that is no 32-bit integer is "out": nothing is    *)
(* said about its value.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth
VARIABLES h
vars == h
One(S) == {RandomElement(S)}
Max32 == 2147483647
Min32 == 0 - 2147483647 - 1
\* results: <<"num", n>>, <<"sym", i>> (i-th of the symbols below), <<"undef", 0>>, <<"out", 0>>
N(n) == <<"num", n>>
Undef == <<"undef", 0>>
OutR == <<"out", 0>>
\* symbols in their order; the place of the numbers is after the first
Syms == <<"#inf", "()", "a", "b", "-()", "-a", "-b", "\"\"", "\"a\"", "f(1)", "f(2)", "(1,2)", "-f(1)", "-f(2)", "-(1,2)", "#sup">>
Flip == <<0, 5, 6, 7, 2, 3, 4, 0, 0, 13, 14, 15, 10, 11, 12, 0>>
AddO(a, b) == IF (b > 0 /\ a > Max32 - b) \/ (b < 0 /\ a < Min32 - b) THEN OutR ELSE N(a + b)
NegO(a) == IF a = Min32 THEN OutR ELSE N(0 - a)
SubO(a, b) == IF (b < 0 /\ a > Max32 + b) \/ (b > 0 /\ a < Min32 + b) THEN OutR ELSE N(a - b)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
MulO(a, b) ==
    IF a = 0 \/ b = 0 THEN N(0) ELSE IF a = 1 THEN N(b) ELSE IF b = 1 THEN N(a)
    ELSE IF a = Min32 \/ b = Min32 THEN OutR
    ELSE IF Abs(a) <= Max32 \div Abs(b) THEN N(a * b)
    ELSE IF (a < 0) # (b < 0) /\ Max32 \div Abs(b) = Abs(a) - 1 /\ Max32 % Abs(b) = Abs(b) - 1 THEN N(Min32)
    ELSE OutR
\* |a / b| for a = Min32: one more than (Max32 / |b|) where the remainder says so
DivO(a, b) ==
    IF b = 0 THEN Undef
    ELSE IF b = Min32 THEN N(IF a = Min32 THEN 1 ELSE 0)
    ELSE IF a = Min32 THEN
        (IF b = 1 THEN N(Min32) ELSE IF b = 0 - 1 THEN OutR
         ELSE LET q == (Max32 \div Abs(b)) + (IF Max32 % Abs(b) = Abs(b) - 1 THEN 1 ELSE 0) IN N(IF b > 0 THEN 0 - q ELSE q))
    ELSE LET q == Abs(a) \div Abs(b) IN N(IF (a < 0) # (b < 0) THEN 0 - q ELSE q)
ModO(a, b) ==
    IF b = 0 THEN Undef ELSE IF b \in {1, 0 - 1} THEN N(0)
    ELSE IF b = Min32 THEN N(IF a = Min32 THEN 0 ELSE a)
    ELSE IF a = Min32 THEN (LET r == (Max32 % Abs(b)) + 1 IN N(IF r = Abs(b) THEN 0 ELSE 0 - r))
    ELSE LET r == Abs(a) % Abs(b) IN N(IF a < 0 THEN 0 - r ELSE r)
RECURSIVE PowR(_, _)
PowR(a, b) == IF b = 0 THEN N(1) ELSE LET p == PowR(a, b - 1) IN IF p[1] # "num" THEN p ELSE MulO(p[2], a)
PowO(a, b) ==
    IF b < 0 THEN (IF a = 0 THEN Undef ELSE N(0))
    ELSE IF a \in {0, 1, 0 - 1} THEN N(IF b = 0 THEN 1 ELSE IF a = 0 THEN 0 ELSE IF a = 1 \/ b % 2 = 0 THEN 1 ELSE 0 - 1)
    ELSE IF b > 32 THEN OutR ELSE PowR(a, b)
\* two's complement: the lower 31 bits and the sign
Low(n) == IF n < 0 THEN n + Max32 + 1 ELSE n
Bit(op, x, y) == CASE op = "&" -> IF x = 1 /\ y = 1 THEN 1 ELSE 0
                   [] op = "?" -> IF x = 1 \/ y = 1 THEN 1 ELSE 0
                   [] OTHER -> IF x # y THEN 1 ELSE 0
RECURSIVE Bits(_, _, _, _)
Bits(op, x, y, n) == IF n = 0 THEN 0 ELSE Bit(op, x % 2, y % 2) + 2 * Bits(op, x \div 2, y \div 2, n - 1)
BitO(op, a, b) ==
    LET l == Bits(op, Low(a), Low(b), 31)
        s == Bit(op, IF a < 0 THEN 1 ELSE 0, IF b < 0 THEN 1 ELSE 0)
    IN N(IF s = 1 THEN l + Min32 ELSE l)
NotO(a) == N((0 - 1) - a)
Bin(op, a, b) == CASE op = "+" -> AddO(a, b) [] op = "-" -> SubO(a, b) [] op = "*" -> MulO(a, b) [] op = "/" -> DivO(a, b)
                   [] op = "\\" -> ModO(a, b) [] op = "**" -> PowO(a, b) [] OTHER -> BitO(op, a, b)
\* terms: [k |-> "n", v], [k |-> "s", i], [k |-> "b", op, l, r], [k |-> "u", op, l]; a leaf with var = TRUE is given by a fact
RECURSIVE Ev(_)
Ev(t) ==
    CASE t.k = "n" -> N(t.v)
      [] t.k = "s" -> <<"sym", t.i>>
      [] t.k = "u" ->
         LET a == Ev(t.l) IN
         IF a[1] \in {"undef", "out"} THEN a
         ELSE IF a[1] = "sym" THEN (IF t.op = "-" /\ Flip[a[2]] # 0 THEN <<"sym", Flip[a[2]]>> ELSE Undef)
         ELSE CASE t.op = "-" -> NegO(a[2]) [] t.op = "~" -> NotO(a[2]) [] OTHER -> IF a[2] < 0 THEN NegO(a[2]) ELSE N(a[2])
      [] OTHER ->
         LET a == Ev(t.l) b == Ev(t.r) IN
         IF a[1] \in {"undef", "sym"} \/ b[1] \in {"undef", "sym"} THEN
             (IF a[1] = "out" \/ b[1] = "out" THEN Undef ELSE Undef)
         ELSE IF a[1] = "out" \/ b[1] = "out" THEN OutR
         ELSE Bin(t.op, a[2], b[2])
\* somewhere a value is out of range (what is undefined further up may depend on it)
RECURSIVE Wild(_)
Wild(t) == t.k \in {"b", "u"} /\ (Ev(t) = OutR \/ Wild(t.l) \/ (t.k = "b" /\ Wild(t.r)))

\* text with as few parentheses as the grammar allows, or all of them
Prec(op) == CASE op = "^" -> 1 [] op = "?" -> 2 [] op = "&" -> 3 [] op \in {"+", "-"} -> 4 [] op \in {"*", "/", "\\"} -> 5 [] OTHER -> 6
NumT(v) == IF v = Min32 THEN "-2147483648" ELSE ToString(v)
Leaf(t, p) == IF t.k = "n" THEN (IF t.v < 0 THEN "(" \o NumT(t.v) \o ")" ELSE NumT(t.v))
              ELSE IF t.i \in {5, 6, 7, 13, 14, 15} THEN "(" \o Syms[t.i] \o ")" ELSE Syms[t.i]
RECURSIVE Tx(_, _, _, _)
\* m: precedence needed; f: all parentheses; vs: names of variables are used for marked leaves
Var(t) == "V" \o ToString(t.id)
Tx(t, m, f, vs) ==
    CASE t.k \in {"n", "s"} -> IF vs /\ t.var THEN Var(t) ELSE Leaf(t, m)
      [] t.k = "u" -> IF t.op = "|" THEN "|" \o Tx(t.l, 0, f, vs) \o "|"
                      ELSE LET x == t.op \o Tx(t.l, 7, f, vs) IN IF f THEN "(" \o x \o ")" ELSE x
      [] OTHER -> LET q == Prec(t.op)
                      x == Tx(t.l, IF q = 6 THEN 7 ELSE q, f, vs) \o t.op \o Tx(t.r, IF q = 6 THEN 6 ELSE q + 1, f, vs)
                  IN IF f \/ q < m THEN "(" \o x \o ")" ELSE x
RECURSIVE Leaves(_)
Leaves(t) == CASE t.k \in {"n", "s"} -> <<t>> [] t.k = "u" -> Leaves(t.l) [] OTHER -> Leaves(t.l) \o Leaves(t.r)
Vs(t) == SelectSeq(Leaves(t), LAMBDA x : x.var)
JoinS(s, sep) == IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA x, y : x \o sep \o y, s[1], SubSeq(s, 2, Len(s)))
VFacts(vs) == JoinS([i \in 1..Len(vs) |-> "v" \o ToString(vs[i].id) \o "(" \o Leaf(vs[i], 0) \o "). "], "")
VBody(vs) == JoinS([i \in 1..Len(vs) |-> "v" \o ToString(vs[i].id) \o "(" \o Var(vs[i]) \o ")"], ", ")

Corner == <<0, 1, 0 - 1, 2, 0 - 2, 3, 5, 7, 0 - 7, 31, 32, 46340, 46341, 0 - 46341, 65535, 65536, 1000000007, Max32, Max32 - 1, Min32, 0 - Max32, 1073741824, 0 - 1073741824, 715827882>>
RNum(d) == IF RandomElement(1..3) = 1 THEN RandomElement((0 - 12)..12)
           ELSE IF RandomElement(1..6) = 1 THEN (IF RandomElement(1..2) = 1 THEN RandomElement(0..(Max32 - 1)) ELSE 0 - RandomElement(0..(Max32 - 1))) ELSE Corner[RandomElement(1..Len(Corner))]
RLeaf(id, num) == LET v == RandomElement({TRUE, FALSE}) IN
    IF ~num /\ RandomElement(1..12) = 1 THEN [k |-> "s", i |-> RandomElement(1..Len(Syms)), var |-> v, id |-> id]
    ELSE [k |-> "n", v |-> RNum(1), var |-> v, id |-> id]
Ops == <<"+", "-", "*", "/", "\\", "**", "&", "?", "^", "+", "-", "*", "/", "\\">>
RECURSIVE RTerm(_, _)
RTerm(d, id) ==
    IF d = 0 \/ RandomElement(1..5) = 1 THEN RLeaf(id, FALSE)
    ELSE IF RandomElement(1..5) = 1 THEN [k |-> "u", op |-> RandomElement({"-", "~", "|"}), l |-> RTerm(d - 1, 2 * id)]
    ELSE [k |-> "b", op |-> Ops[RandomElement(1..Len(Ops))], l |-> RTerm(d - 1, 2 * id), r |-> RTerm(d - 1, 2 * id + 1)]
NoVar(t) == [t EXCEPT !.var = FALSE]
RECURSIVE Plain(_)
Plain(t) == CASE t.k \in {"n", "s"} -> NoVar(t) [] t.k = "u" -> [t EXCEPT !.l = Plain(@)] [] OTHER -> [t EXCEPT !.l = Plain(@), !.r = Plain(@)]
ValT(v) == IF v[1] = "num" THEN NumT(v[2]) ELSE Syms[v[2]]
Some == [any |-> 1]
Ok(v) == v[1] \in {"num", "sym"}
\* what a program derives and whether something was undefined
Pr(text, facts, undef) == [op |-> "te_prog", text |-> text, exp |-> [facts |-> facts, undef |-> undef]]
B(s) == [bag |-> s]
Body(t, rest) == LET vs == Vs(t) b == VBody(vs) IN (IF b = "" /\ rest = "" THEN "" ELSE " :- " \o b \o (IF b # "" /\ rest # "" THEN ", " ELSE "") \o rest) \o ". "
Eval(d) == \E t \in {RTerm(RandomElement(1..3), 1)} : \E f \in One(BOOLEAN) :
    LET v == Ev(t) w == Wild(t) IN
    h' = Append(h, Pr(VFacts(Vs(t)) \o "p(" \o Tx(t, 0, f, TRUE) \o ")" \o Body(t, ""),
                      IF w THEN Some ELSE B(IF Ok(v) THEN <<"p(" \o ValT(v) \o ")">> ELSE <<>>), IF w THEN Some ELSE ~Ok(v)))
\* the parser of ground terms, and constants
Parse(d) == \E t \in {Plain(RTerm(RandomElement(1..3), 1))} : \E f \in One(BOOLEAN) :
    LET v == Ev(t) w == Wild(t) IN
    h' = Append(h, [op |-> "te_term", text |-> Tx(t, 0, f, FALSE), exp |-> IF w THEN Some ELSE IF Ok(v) THEN [val |-> ValT(v)] ELSE [undef |-> TRUE]])
Const(d) == \E t \in {Plain(RTerm(2, 1))} : \E u \in {Plain(RTerm(1, 2))} : \E f \in One(BOOLEAN) :
    LET v == Ev(t)
        full == [k |-> "b", op |-> "+", l |-> t, r |-> u]
        w == Ev(full) IN
    h' = Append(h, IF Wild(full) \/ ~Ok(v) THEN Pr("#const k=" \o Tx(t, 0, f, FALSE) \o ". p(k).", Some, Some)
                   ELSE Pr("#const k=" \o Tx(t, 0, f, FALSE) \o ". p(k). q(k+" \o Tx(u, 5, f, FALSE) \o ").",
                           B(<<"p(" \o ValT(v) \o ")">> \o IF Ok(w) THEN <<"q(" \o ValT(w) \o ")">> ELSE <<>>), ~Ok(w)))
\* comparisons follow the order of symbols
Less(v, w) == IF v[1] = "num" /\ w[1] = "num" THEN v[2] < w[2]
              ELSE IF v[1] = "num" THEN w[2] > 1 ELSE IF w[1] = "num" THEN v[2] = 1 ELSE v[2] < w[2]
Rel(op, v, w) == CASE op = "<" -> Less(v, w) [] op = "<=" -> v = w \/ Less(v, w) [] op = ">" -> Less(w, v) [] op = ">=" -> v = w \/ Less(w, v)
                   [] op = "=" -> v = w [] OTHER -> v # w
Compare(d) == \E t \in {RTerm(RandomElement(0..2), 1)} : \E u \in {RTerm(RandomElement(0..1), 8)} : \E op \in One({"<", "<=", ">", ">=", "=", "!="}) : \E s \in One({TRUE, TRUE, FALSE}) :
    LET v == Ev(t) w == Ev(u)
        vs == Vs(t) \o Vs(u)
        x == Tx(t, 0, FALSE, TRUE) \o " " \o op \o " " \o Tx(u, 0, FALSE, TRUE)
        bad == Wild(t) \/ Wild(u) IN
    h' = Append(h, Pr(VFacts(vs) \o "q :- " \o VBody(vs) \o (IF vs = <<>> THEN "" ELSE ", ") \o (IF s THEN "" ELSE "not ") \o x \o ".",
            IF bad THEN Some ELSE B(IF Ok(v) /\ Ok(w) /\ Rel(op, v, w) = s THEN <<"q">> ELSE <<>>),
            \* (equations are solved for a variable by inverting terms, which says nothing about symbols that do not match)
            IF bad \/ (op = "=" /\ (~Ok(v) \/ ~Ok(w))) THEN Some ELSE IF ~Ok(v) \/ ~Ok(w) THEN TRUE ELSE FALSE))
\* intervals of a few numbers, everywhere among the integers
Interval(d) == \E a \in {RNum(1)} : \E k \in One((0 - 1)..4) : \E form \in One(1..4) : \E c \in {RNum(2)} :
    LET top == AddO(a, k)
        hi == IF top[1] = "num" THEN top[2] ELSE Max32
        hi2 == IF a = Min32 /\ k = 0 - 1 THEN a ELSE hi
        els == IF hi2 < a THEN <<>> ELSE [i \in 1..((hi2 - a) + 1) |-> a + (i - 1)]
        l == NumT(a) r == NumT(hi2)
        p(q) == [i \in 1..Len(els) |-> q \o "(" \o NumT(els[i]) \o ")"]
        in == \E i \in 1..Len(els) : els[i] = c IN
    h' = Append(h, CASE form = 1 -> Pr("p((" \o l \o ")..(" \o r \o ")).", B(p("p")), FALSE)
                     [] form = 2 -> Pr("q(X) :- X = (" \o l \o ")..(" \o r \o ").", B(p("q")), FALSE)
                     [] form = 3 -> Pr("l(" \o l \o "). r(" \o r \o "). q(X) :- l(L), r(R), X = L..R.", B(<<"l(" \o l \o ")", "r(" \o r \o ")">> \o p("q")), FALSE)
                     [] OTHER -> Pr("v(" \o NumT(c) \o "). q(X) :- v(X), X = (" \o l \o ")..(" \o r \o ").", B(<<"v(" \o NumT(c) \o ")">> \o IF in THEN <<"q(" \o NumT(c) \o ")">> ELSE <<>>), FALSE))
RECURSIVE Twos(_)
Twos(n) == IF n = 0 THEN 99 ELSE IF n = Min32 THEN 31 ELSE IF n % 2 # 0 THEN 0 ELSE 1 + Twos(n \div 2)
\* linear terms are inverted: the value is given, the variable is sought (X is Mm * X + Nn in different dress)
Linear(d) == \E x \in {IF RandomElement(1..8) = 1 THEN <<"sym", RandomElement(1..Len(Syms))>> ELSE N(RNum(1))} : \E m \in {RNum(2)} : \E n \in {RNum(3)} :
             \E form \in One(1..7) : \E near \in One({TRUE, FALSE}) : \E q \in {RNum(4)} :
    LET X == [k |-> "n", v |-> 0, var |-> TRUE, id |-> 1]
        C(v) == [k |-> "n", v |-> v, var |-> FALSE, id |-> 2]
        T(y) == CASE form = 1 -> [k |-> "b", op |-> "+", l |-> y, r |-> C(n)]
                  [] form = 2 -> [k |-> "b", op |-> "-", l |-> C(n), r |-> y]
                  [] form = 3 -> [k |-> "b", op |-> "*", l |-> C(m), r |-> y]
                  [] form = 4 -> [k |-> "b", op |-> "+", l |-> [k |-> "b", op |-> "*", l |-> y, r |-> C(m)], r |-> C(n)]
                  [] form = 5 -> [k |-> "u", op |-> "-", l |-> y]
                  [] form = 6 -> [k |-> "b", op |-> "-", l |-> [k |-> "b", op |-> "-", l |-> y, r |-> C(n)], r |-> C(q)]
                  [] OTHER -> [k |-> "b", op |-> "*", l |-> [k |-> "b", op |-> "*", l |-> y, r |-> C(m)], r |-> C(n)]
        Leaf0 == IF x[1] = "num" THEN [k |-> "n", v |-> x[2], var |-> FALSE, id |-> 3] ELSE [k |-> "s", i |-> x[2], var |-> FALSE, id |-> 3]
        tx == T(Leaf0)
        v == Ev(tx)
        zero == (form \in {3, 4, 7} /\ m = 0) \/ (form = 7 /\ Twos(m) + Twos(n) >= 32)
        bad == Wild(tx) \/ zero
        text == "q(X) :- v(" \o Tx(T(X), 0, FALSE, TRUE) \o ")."
        given == IF Ok(v) THEN ValT(v) ELSE ValT(x)
        body == "v(" \o given \o "). q(V1) :- v(" \o Tx(T(X), 0, FALSE, TRUE) \o ")." IN
    \* (a given symbol is matched only by negation; a product with zero says nothing about its factor: the variable is not bound)
    h' = Append(h, IF zero THEN Pr("v(1). q(X) :- v(X+1).", B(<<"v(1)", "q(0)">>), FALSE)
                   ELSE IF x[1] = "sym" /\ ~Ok(v) THEN Pr(body, B(<<"v(" \o given \o ")">> \o (IF form = 5 /\ Flip[x[2]] # 0 THEN <<"q(" \o Syms[Flip[x[2]]] \o ")">> ELSE <<>>)), FALSE)
                   ELSE Pr(body, IF bad THEN Some ELSE B(<<"v(" \o given \o ")", "q(" \o ValT(x) \o ")">>), IF bad THEN Some ELSE FALSE))
Next == IF Len(h) >= Depth THEN UNCHANGED h
        ELSE \E y \in One(1..12) : CASE y \in 1..4 -> Eval(y) [] y \in 5..6 -> Parse(y) [] y = 7 -> Const(y) [] y \in 8..9 -> Compare(y) [] y = 10 -> Interval(y) [] OTHER -> Linear(y)
Init == h = <<>>
Spec == Init /\ [][Next]_vars
Emit == Len(h) < Depth \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
