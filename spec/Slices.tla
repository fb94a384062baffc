------------------------------- MODULE Slices -------------------------------
(* Sequence views (C20): what a slice of a sequence of length n denotes.     *)
(* A slice is <<start, stop, step>> with "-" for an absent bound.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
None == 99     \* an absent bound
Clamp(v, n, lo, hi) == LET w == IF v < 0 THEN v + n ELSE v IN IF w < lo THEN lo ELSE IF w > hi THEN hi ELSE w
Start(s, n) == IF s[3] > 0 THEN (IF s[1] = None THEN 0 ELSE Clamp(s[1], n, 0, n))
               ELSE (IF s[1] = None THEN n - 1 ELSE Clamp(s[1], n, -1, n - 1))
Stop(s, n) == IF s[3] > 0 THEN (IF s[2] = None THEN n ELSE Clamp(s[2], n, 0, n))
              ELSE (IF s[2] = None THEN -1 ELSE Clamp(s[2], n, -1, n - 1))
\* the positions (0-based) a slice selects
RECURSIVE Walk(_, _, _)
Walk(i, e, d) == IF (d > 0 /\ i >= e) \/ (d < 0 /\ i <= e) THEN <<>> ELSE <<i>> \o Walk(i + d, e, d)
Pos(s, n) == Walk(Start(s, n), Stop(s, n), s[3])
Apply(s, L) == LET p == Pos(s, Len(L)) IN [i \in 1..Len(p) |-> L[p[i] + 1]]
RECURSIVE Chain(_, _)
Chain(c, L) == IF c = <<>> THEN L ELSE Chain(Tail(c), Apply(Head(c), L))
\* positions of the underlying sequence seen through a chain of slices
Through(c, n) == Chain(c, [i \in 1..n |-> i - 1])

-----------------------------------------------------------------------------
(* Everything that can be read from a sequence; -1 stands for an IndexError *)
Item(L, i) == LET j == IF i < 0 THEN i + Len(L) ELSE i IN IF j < 0 \/ j >= Len(L) THEN -1 ELSE L[j + 1]
Reads(L, n) == [len |-> Len(L), iter |-> L, rev |-> Reverse(L),
                get |-> [k \in 1..2*n + 3 |-> Item(L, k - n - 2)],
                \* membership, number of occurrences and first position of each possible element
                inn |-> [v \in 1..n |-> \E i \in 1..Len(L) : L[i] = v - 1],
                cnt |-> [v \in 1..n |-> Cardinality({i \in 1..Len(L) : L[i] = v - 1})],
                idx |-> [v \in 1..n |-> IF \E i \in 1..Len(L) : L[i] = v - 1 THEN Min({i \in 1..Len(L) : L[i] = v - 1}) - 1 ELSE -1]]
=============================================================================
