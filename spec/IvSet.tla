------------------------------- MODULE IvSet --------------------------------
(***************************************************************************)
(* Interval sets (G01).  Between any two bounds there is something: bound b *)
(* is the point 2b, and 2b+1 stands for everything between b and b+1.  A    *)
(* set is a set of points; what is enumerated are its maximal intervals.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth, B, Ex
VARIABLES h, A
vars == <<h, A>>
One(S) == IF Ex THEN S ELSE {RandomElement(S)}
Bounds == 0..(B - 1)
Points == 0..(2 * B - 2)
Intervals == [l : Bounds, li : BOOLEAN, r : Bounds, ri : BOOLEAN]
Lo(v) == IF v.li THEN 2 * v.l ELSE 2 * v.l + 1
Hi(v) == IF v.ri THEN 2 * v.r ELSE 2 * v.r - 1
Pts(v) == {p \in Points : Lo(v) <= p /\ p <= Hi(v)}
\* maximal intervals of a set of points
Starts(P) == {p \in P : (p - 1) \notin P}
End(P, p) == CHOOSE q \in P : q >= p /\ (\A x \in p..q : x \in P) /\ (q + 1) \notin P
Iv(p, q) == [l |-> p \div 2, li |-> p % 2 = 0, r |-> (q + 1) \div 2, ri |-> q % 2 = 0]
Less(a, b) == a < b
Canon(P) == LET s == SetToSortSeq(Starts(P), Less) IN [j \in 1..Len(s) |-> Iv(s[j], End(P, s[j]))]
\* all questions about all intervals; bits in the order the driver asks
Bit(b) == IF b THEN "1" ELSE "0"
AllIv == [j \in 1..(4 * B * B) |-> [l |-> ((j - 1) \div (4 * B)), li |-> ((j - 1) \div 2) % 2 = 1, r |-> ((j - 1) \div 4) % B, ri |-> (j - 1) % 2 = 1]]
AllPts == [j \in 1..Len(AllIv) |-> Pts(AllIv[j])]
Bits(P, f) == FoldLeft(LAMBDA s, ps : s \o Bit(IF f = "contains" THEN ps \subseteq P ELSE ps \cap P # {}), "", AllPts)
Seen(P) == LET c == Canon(P) IN [iv |-> c, size |-> Len(c), empty |-> P = {}]
Do(o, a) == /\ A' = a /\ h' = Append(h, o @@ [exp |-> <<Seen(a[1]), Seen(a[2])>>])
Start == h = <<>> /\ \E P \in (IF Ex THEN SUBSET Points ELSE {{}}) :
    /\ A' = <<P, {}>> /\ h' = <<[op |-> "iv_new", b |-> B, list |-> Canon(P), exp |-> <<Seen(P), Seen({})>>]>>
Add == \E s \in One(IF Ex THEN {1} ELSE {1, 1, 2}), v \in One(Intervals) : Do([op |-> "iv_add", s |-> s, v |-> v], [A EXCEPT ![s] = @ \cup Pts(v)])
Rem == \E s \in One(IF Ex THEN {1} ELSE {1, 1, 2}), v \in One(Intervals) : Do([op |-> "iv_remove", s |-> s, v |-> v], [A EXCEPT ![s] = @ \ Pts(v)])
List == \E s \in One({1, 2}), n \in One(0..3) : \E vs \in {[j \in 1..n |-> RandomElement({v \in Intervals : v.l + j > 0})]} :
    Do([op |-> "iv_list", s |-> s, v |-> vs], [A EXCEPT ![s] = UNION {Pts(vs[j]) : j \in 1..n}])
Other == \E k \in One({"copy", "move", "clear", "intersect", "difference", "assign"}), s \in One({1, 2}) :
    Do([op |-> "iv_op", k |-> k, s |-> s],
       CASE k \in {"copy", "assign"} -> [A EXCEPT ![3 - s] = A[s]]
         [] k = "move" -> [A EXCEPT ![3 - s] = A[s], ![s] = {}]
         [] k = "clear" -> [A EXCEPT ![s] = {}]
         [] k = "intersect" -> [A EXCEPT ![s] = A[1] \cap A[2]]
         [] OTHER -> [A EXCEPT ![s] = @ \ A[3 - s]])
\* in exhaustive mode the second set is any set, too
Binary == \E Q \in SUBSET Points, k \in {"intersect", "difference"} :
    /\ A' = [A EXCEPT ![1] = IF k = "intersect" THEN @ \cap Q ELSE @ \ Q, ![2] = Q]
    /\ h' = Append(h, [op |-> "iv_binary", k |-> k, list |-> Canon(Q), exp |-> <<Seen(A'[1]), Seen(A'[2])>>])
Ask == /\ h' = Append(h, [op |-> "iv_ask", exp |-> [j \in 1..2 |-> [contains |-> Bits(A[j], "contains"), intersects |-> Bits(A[j], "intersects")]]])
       /\ UNCHANGED A
Next ==
    IF h = <<>> THEN Start
    ELSE IF Len(h) >= Depth THEN UNCHANGED vars
    ELSE IF Ex THEN (IF Len(h) = 1 THEN Add \/ Rem \/ Binary ELSE Ask)
    ELSE \E x \in {RandomElement(1..20)} : CASE x <= 8 -> Add [] x <= 13 -> Rem [] x <= 15 -> Other [] x = 16 -> List [] OTHER -> Ask
Init == h = <<>> /\ A = <<{}, {}>>
Spec == Init /\ [][Next]_vars
\* maximal intervals describe the set, in order and apart from each other
Round == \A s \in 1..2 : LET c == Canon(A[s]) IN
    /\ UNION {Pts(c[j]) : j \in 1..Len(c)} = A[s]
    /\ \A j \in 1..(Len(c) - 1) : Hi(c[j]) + 1 < Lo(c[j + 1])
Emit == Len(h) < Depth \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
