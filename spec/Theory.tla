------------------------------- MODULE Theory -------------------------------
(* Theory data (C12): programs with theory atoms in heads, bodies and        *)
(* directives, and theory atoms stated through the backend; what reading the *)
(* theory atoms back has to yield, and in which models their literals hold.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC, Json, CSV, IOUtils
CONSTANTS Steps, Backend
Kinds == <<"head", "head", "body", "body", "any", "dir">> \o (IF Backend THEN <<"bk", "bk", "bkdir">> ELSE <<>>)
VARIABLES h
One(S) == {RandomElement(S)}
Bag(s) == [bag |-> s]
Cut(s, lo) == SubSeq(s, 1, RandomElement(lo..Len(s)))
Flat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
RECURSIVE JoinS(_, _)
JoinS(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinS(Tail(s), sep)

-----------------------------------------------------------------------------
(* terms: [t, v, args] *)
N(n) == [t |-> "num", n |-> n]
S(s) == [t |-> "sym", s |-> s]
Str(s) == [t |-> "str", s |-> s]
F(f, a) == [t |-> "fun", s |-> f, args |-> a]
Q(k, a) == [t |-> "seq", s |-> k, args |-> a]
Ops2 == {"+", "*", "-", "**", "<?"}
Ops1 == {"-", "!", "~"}
IsOp(t) == t.t = "fun" /\ t.s \in Ops1 \cup Ops2
Open == [tuple |-> "(", list |-> "[", set |-> "{"]
Close == [tuple |-> ")", list |-> "]", set |-> "}"]
\* how a term is printed
RECURSIVE TStr(_)
TStr(t) ==
    CASE t.t = "num" -> IF t.n < 0 THEN "(" \o ToString(t.n) \o ")" ELSE ToString(t.n)
      [] t.t = "sym" -> t.s
      [] t.t = "str" -> "\"" \o t.s \o "\""
      [] IsOp(t) /\ Len(t.args) = 1 -> "(" \o t.s \o TStr(t.args[1]) \o ")"
      [] IsOp(t) /\ Len(t.args) = 2 -> "(" \o TStr(t.args[1]) \o t.s \o TStr(t.args[2]) \o ")"
      [] t.t = "fun" -> t.s \o "(" \o JoinS([i \in 1..Len(t.args) |-> TStr(t.args[i])], ",") \o ")"
      [] OTHER -> Open[t.s] \o JoinS([i \in 1..Len(t.args) |-> TStr(t.args[i])], ",")
                  \o (IF t.s = "tuple" /\ Len(t.args) = 1 THEN "," ELSE "") \o Close[t.s]
\* what its accessors say
RECURSIVE TObs(_)
TObs(t) ==
    CASE t.t = "num" -> [type |-> "Number", number |-> t.n, str |-> TStr(t)]
      [] t.t = "sym" -> [type |-> "Symbol", name |-> t.s, str |-> TStr(t)]
      [] t.t = "str" -> [type |-> "Symbol", name |-> "\"" \o t.s \o "\"", str |-> TStr(t)]
      [] t.t = "fun" -> [type |-> "Function", name |-> t.s, args |-> [i \in 1..Len(t.args) |-> TObs(t.args[i])], str |-> TStr(t)]
      [] OTHER -> [type |-> (CASE t.s = "tuple" -> "Tuple" [] t.s = "list" -> "List" [] OTHER -> "Set"),
                   args |-> [i \in 1..Len(t.args) |-> TObs(t.args[i])], str |-> TStr(t)]

Leaf(d) == CASE RandomElement(1..2) = 1 -> N(RandomElement({0, 1, 2, 7, 2147483647}))
             [] RandomElement(1..3) = 1 -> Str(RandomElement({"x", "", "a b", "q:r"}))
             [] OTHER -> S(RandomElement({"a", "b", "cc"}))
Comb(l, three, bk) ==
    LET n == RandomElement(0..Len(l)) k == RandomElement(1..8) IN
    CASE k \in {1, 2} -> F(RandomElement({"f", "g"}), SubSeq(l, 1, IF n = 0 THEN 1 ELSE n))
      [] k = 3 -> F(RandomElement(Ops2), <<l[1], l[2]>>)
      [] k = 4 -> F(RandomElement({"!", "~"}), <<l[1]>>)
      [] k \in {5, 6} /\ ~bk -> Q(RandomElement({"tuple", "list", "set"}), SubSeq(l, 1, n))
      [] OTHER -> l[1]
T1(bk) == Comb(<<Leaf(1), Leaf(2)>>, FALSE, bk)
\* an ordinary term, as the arguments of a theory atom's name are
Ord(d) == LET n == RandomElement(0..2) l == <<Leaf(1), Leaf(2)>> IN
    CASE RandomElement(1..3) = 1 -> F(RandomElement({"f", "g"}), SubSeq(l, 1, IF n = 0 THEN 1 ELSE n))
      [] RandomElement(1..4) = 1 -> Q("tuple", SubSeq(l, 1, n))
      [] OTHER -> l[1]
T2(bk) == Comb(<<T1(bk), T1(bk), Leaf(3)>>, TRUE, bk)

-----------------------------------------------------------------------------
(* statements over choice atoms P, a fact z and an underivable atom w *)
P(k) == {"p(" \o k \o ",1)", "p(" \o k \o ",2)", "q(" \o k \o ")"}
Lit(k) == [a |-> RandomElement(P(k)), s |-> RandomElement({TRUE, TRUE, FALSE})]
LitT(l) == (IF l.s THEN "" ELSE "not ") \o l.a
Dup(s) == IF Len(s) = 2 /\ s[1].a = s[2].a THEN <<s[1]>> ELSE s
Lits(k, lo) == Dup(Cut(<<Lit(k), Lit(k)>>, lo))
\* extra: "" | a fact in the condition | an atom that cannot hold
Elem(k, n, bk) == [tup |-> IF n \in {11, 12, 13} /\ RandomElement(1..5) = 1 /\ ~bk THEN <<>> ELSE <<N(n)>> \o Cut(<<T2(bk), Leaf(1)>>, 0),
                   cond |-> Lits(k, 0), extra |-> IF bk THEN "" ELSE RandomElement({"", "", "", "z", "w"})]
\* (tuples are unique in a step: the engine shares elements by tuple)
Elems(k, n, bk) == LET e == Cut(<<Elem(k, 10 * n + 1, bk), Elem(k, 10 * n + 2, bk), Elem(k, 10 * n + 3, bk)>>, 0)
            IN IF Cardinality({i \in 1..Len(e) : e[i].tup = <<>>}) > 1 THEN SubSeq(e, 1, 1) ELSE e
EText(e) == LET c == (IF e.extra = "" THEN <<>> ELSE <<e.extra>>) \o [i \in 1..Len(e.cond) |-> LitT(e.cond[i])]
            IN JoinS([i \in 1..Len(e.tup) |-> TStr(e.tup[i])], ",") \o (IF c = <<>> /\ e.tup # <<>> THEN "" ELSE " : " \o JoinS(c, ", "))
EObs(e) == [terms |-> [i \in 1..Len(e.tup) |-> TObs(e.tup[i])],
            cond |-> Bag([i \in 1..Len(e.cond) |-> (IF e.cond[i].s THEN "" ELSE "~") \o e.cond[i].a]), strok |-> TRUE]
\* kinds: head, body, any (in a body), dir, bk (backend, defined by a rule), bkdir
Atom(k, i, kind) ==
    LET bk == kind \in {"bk", "bkdir"} g == RandomElement({TRUE, FALSE}) IN
    [kind |-> kind, i |-> i, id |-> "i(" \o k \o "," \o ToString(i) \o ")",
     args |-> <<N(i)>> \o (IF bk THEN Cut(<<T2(bk), T1(bk)>>, 0) ELSE Cut(<<Ord(1), Ord(2)>>, 0)), el |-> Elems(k, i, bk),
     op |-> IF g THEN RandomElement({"<=", "=", "!="}) ELSE "", rhs |-> T2(bk),
     body |-> Lits(k, 0), neg |-> RandomElement({TRUE, FALSE, FALSE})]
Name == [head |-> "h", body |-> "b", any |-> "a", dir |-> "d", bk |-> "k", bkdir |-> "k"]
Term(x) == F(Name[x.kind], x.args)
AText(x) == "&" \o TStr(Term(x)) \o " { " \o JoinS([i \in 1..Len(x.el) |-> EText(x.el[i])], "; ") \o " }"
            \o (IF x.op = "" THEN "" ELSE " " \o x.op \o " " \o TStr(x.rhs))
\* the statement, with an atom telling whether the theory atom holds
SText(x) == LET b == [i \in 1..Len(x.body) |-> LitT(x.body[i])] IN
    CASE x.kind = "head" -> AText(x) \o (IF b = <<>> THEN "" ELSE " :- " \o JoinS(b, ", ")) \o ". "
      [] x.kind \in {"body", "any"} -> x.id \o " :- " \o (IF x.neg THEN "not " ELSE "") \o JoinS(<<AText(x)>> \o b, ", ") \o ". "
      [] x.kind = "dir" -> AText(x) \o ". "
      [] OTHER -> ""
Grammar == "#theory t { x { + : 2, binary, left; - : 2, binary, left; * : 3, binary, left; ** : 4, binary, right; <? : 1, binary, left; "
           \o "- : 7, unary; ! : 7, unary; ~ : 7, unary }; "
           \o JoinS([a \in 1..3 |-> "&h/" \o ToString(a) \o " : x, {<=, =, !=}, x, head; &b/" \o ToString(a) \o " : x, {<=, =, !=}, x, body; &a/"
                     \o ToString(a) \o " : x, {<=, =, !=}, x, any; &d/" \o ToString(a) \o " : x, {<=, =, !=}, x, directive"], "; ") \o " }. "

AObs(x) == [term |-> TObs(Term(x)), el |-> Bag(LET e == SelectSeq(x.el, LAMBDA y : y.extra # "w") IN [i \in 1..Len(e) |-> EObs(e[i])]),
            guard |-> IF x.op = "" THEN <<>> ELSE <<x.op, TObs(x.rhs)>>, dir |-> x.kind \in {"dir", "bkdir"}, strok |-> TRUE]

-----------------------------------------------------------------------------
(* models: choices X over P, free theory atoms B; what holds follows *)
Sat(b, X) == \A i \in 1..Len(b) : (b[i].a \in X) = b[i].s
Model(xs, X, B) ==
    [atoms |-> Bag(SetToSeq(X \cup {xs[j].id : j \in {i \in 1..Len(xs) : xs[i].kind \in {"body", "any"} /\ Sat(xs[i].body, X) /\ (i \in B) = ~xs[i].neg}})),
     holds |-> Bag(SetToSeq({i \in 1..Len(xs) : \/ xs[i].kind \in {"body", "any"} /\ i \in B
                                                \/ xs[i].kind \in {"head", "bk"} /\ Sat(xs[i].body, X)}))]
Models(k, xs) ==
    LET free == {i \in 1..Len(xs) : xs[i].kind \in {"body", "any"}}
        ms == SetToSeq((SUBSET P(k)) \X (SUBSET free))
    IN Bag([i \in 1..Len(ms) |-> Model(xs, ms[i][1], ms[i][2])])

Step(n) ==
    \E k \in {ToString(n)} : \E m \in One(1..4) :
    \E xs \in {[i \in 1..m |-> Atom(k, i, Kinds[RandomElement(1..Len(Kinds))])]} :
    h' = Append(h, [op |-> "theory", k |-> k, grammar |-> IF n = 1 THEN Grammar \o "z. " ELSE "",
                    text |-> "{" \o JoinS(SetToSeq(P(k)), "; ") \o "}. " \o JoinS([i \in 1..m |-> SText(xs[i])], ""),
                    bk |-> SelectSeq(xs, LAMBDA x : x.kind \in {"bk", "bkdir"}),
                    n |-> m,
                    exp |-> [read |-> Bag([i \in 1..m |-> AObs(xs[i])]), same |-> TRUE,
                             models |-> Models(k, xs), bad |-> <<>>]])
Init == h = <<[op |-> "new", args |-> <<"0">>]>>
Next == IF Len(h) <= Steps THEN Step(Len(h)) ELSE h[Len(h)].op # "end" /\ h' = Append(h, [op |-> "end"])
Emit == h[Len(h)].op # "end" \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
