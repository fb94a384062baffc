------------------------------ MODULE SlicesRnd ------------------------------
(* Slices of slices, and mutable sequences changed directly and through views *)
(* while the views stay alive.                                                *)
EXTENDS Slices, Json, CSV, IOUtils
CONSTANTS Kind, Depth
VARIABLES L, h, views, stage
vars == <<L, h, views, stage>>
One(S) == {RandomElement(S)}
RB(x) == RandomElement({None, None} \cup -4..6)
RSlice(x) == <<RB(x), RB(x), RandomElement({1, 1, 1, 2, -1, -2, 3})>>
RChain(x) == SubSeq(<<RSlice(x), RSlice(x), RSlice(x)>>, 1, RandomElement(2..3))
V == 7  \* elements are 0..V-1
Vals == 0..V-1

Init == views = <<>> /\ stage = 0 /\ L = <<>> /\ h = <<>>
\* reading through chains of slices
ReadOnly ==
    /\ \E n \in One(3..6) : \E k \in One({"symbols", "assignment", "trail", "ast", "str"}) :
       \E cs \in {[i \in 1..12 |-> RChain(i)]} :
       h' = Append(h, [op |-> "reads", kind |-> k, n |-> n, cases |-> cs,
                exp |-> [oneof |-> <<[i \in 1..Len(cs) |-> Reads(Chain(cs[i], [j \in 1..n |-> j - 1]), n)], "skip">>]])
    /\ UNCHANGED <<L, views>>

\* python-style list operations; an operation yields [L, r] (r: "IndexError", "ValueError", a value, or "ok")
Norm(i, n) == IF i < 0 THEN i + n ELSE i
InsPos(i, n) == LET j == Norm(i, n) IN IF j < 0 THEN 0 ELSE IF j > n THEN n ELSE j
Put(M, p, v) == SubSeq(M, 1, p) \o <<v>> \o SubSeq(M, p + 1, Len(M))
Del(M, p) == SubSeq(M, 1, p) \o SubSeq(M, p + 2, Len(M))
Swap(M, p, q) == [M EXCEPT ![p + 1] = M[q + 1], ![q + 1] = M[p + 1]]
RECURSIVE SwapAll(_, _, _)
SwapAll(M, P, i) == IF i > Len(P) \div 2 THEN M ELSE SwapAll(Swap(M, P[i], P[Len(P) + 1 - i]), P, i + 1)
Ok(M) == [L |-> M, r |-> "ok"]
Err(M, e) == [L |-> M, r |-> e]
\* the operation o on the view denoted by chain c (<<>>: the sequence itself)
Do(M, c, o) ==
    LET P == Through(c, Len(M))   W == Chain(c, M)   n == Len(P)   i == Norm(o.i, n) IN
    CASE o.k = "set" -> IF i < 0 \/ i >= n THEN Err(M, "IndexError") ELSE Ok([M EXCEPT ![P[i + 1] + 1] = o.v])
      [] o.k = "del" -> IF i < 0 \/ i >= n THEN Err(M, "IndexError") ELSE Ok(Del(M, P[i + 1]))
      [] o.k = "pop" -> IF i < 0 \/ i >= n THEN Err(M, "IndexError") ELSE [L |-> Del(M, P[i + 1]), r |-> W[i + 1]]
      [] o.k = "pop0" -> IF n = 0 THEN Err(M, "IndexError") ELSE [L |-> Del(M, P[n]), r |-> W[n]]
      [] o.k \in {"insert", "append"} ->
            LET j == IF o.k = "append" THEN n ELSE InsPos(o.i, n)
                d == IF c = <<>> THEN 1 ELSE c[1][3]
                p == IF n = 0 THEN (IF c = <<>> THEN 0 ELSE IF d > 0 THEN Start(c[1], Len(M)) ELSE Start(c[1], Len(M)) + 1)
                     ELSE IF j < n THEN (IF d > 0 THEN P[j + 1] ELSE P[j + 1] + 1)
                     ELSE (IF d > 0 THEN P[n] + 1 ELSE P[n])
            IN Ok(Put(M, p, o.v))
      [] o.k = "remove" -> IF \E k \in 1..n : W[k] = o.v THEN Ok(Del(M, P[Min({k \in 1..n : W[k] = o.v})])) ELSE Err(M, "ValueError")
      [] o.k = "reverse" -> Ok(SwapAll(M, P, 1))
      [] o.k \in {"extend", "iadd"} -> Ok(M \o o.vs)
      [] o.k = "clear" -> Ok(<<>>)
      [] o.k = "assign" -> Ok(o.vs)
      [] o.k = "self" -> Ok(IF o.i % 2 = 0 THEN M \o M ELSE Reverse(M))     \* extended with itself / assigned its own reversal

ROp(c, x) ==
    LET k == RandomElement(IF c = <<>> THEN {"set", "del", "pop", "pop0", "insert", "insert", "append", "remove", "reverse", "extend", "iadd", "clear", "assign", "self"}
                           ELSE IF c[1][3] \in {1, -1} THEN {"set", "set", "del", "pop", "pop0", "insert", "insert", "append", "remove", "reverse"}
                           ELSE {"set", "del", "pop", "pop0", "remove", "reverse"})
    IN [k |-> k, i |-> RandomElement(-8..8), v |-> RandomElement(Vals),
        vs |-> SubSeq(<<RandomElement(Vals), RandomElement(Vals), RandomElement(Vals)>>, 1, RandomElement(0..3))]
State(M, vs) == [base |-> M, again |-> M, views |-> [i \in 1..Len(vs) |-> Chain(vs[i], M)]]
Start0 ==
    /\ \E n \in One(0..5) : \E M \in {[i \in 1..n |-> RandomElement(Vals)]} :
       /\ L' = M
       /\ h' = <<[op |-> "mseq", kind |-> Kind, items |-> M, exp |-> State(M, <<>>)]>>
    /\ UNCHANGED views
Mutate ==
    \/ /\ Len(views) < 3
       /\ \E s \in {RSlice(h)} :
          /\ views' = Append(views, <<s>>)
          /\ h' = Append(h, [op |-> "mview", s |-> s, exp |-> State(L, Append(views, <<s>>))])
       /\ UNCHANGED L
    \/ \E t \in One(0..Len(views)) : \E c \in {IF t = 0 THEN <<>> ELSE views[t]} : \E o \in {ROp(c, h)} : \E r \in {Do(L, c, o)} :
       /\ Len(r.L) <= 12
       /\ L' = r.L
       /\ h' = Append(h, [op |-> "mop", t |-> t, o |-> o, exp |-> [r |-> r.r, st |-> State(r.L, views)]])
       /\ UNCHANGED views
    \/ UNCHANGED <<L, h, views>>
Next ==
    \/ stage = 0 /\ stage' = 1 /\ (IF Kind = "read" THEN ReadOnly ELSE Start0)
    \/ stage = 1 /\ Len(h) < Depth /\ stage' = 1 /\ (IF Kind = "read" THEN ReadOnly ELSE \E x \in One(1..6) : IF x = 1 THEN Mutate ELSE Mutate)
    \/ stage = 1 /\ Len(h) >= Depth /\ stage' = 2 /\ UNCHANGED <<L, views, h>>
    \/ stage = 2 /\ UNCHANGED vars
\* an operation through a view changes only what the view can reach
Emit == stage # 2 \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
