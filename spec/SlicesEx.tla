------------------------------ MODULE SlicesEx ------------------------------
(* All slices of all sequences up to a small length. *)
EXTENDS Slices, Json, CSV, IOUtils
CONSTANTS N, Bound, MaxStep
Steps == (-MaxStep..MaxStep) \ {0}
VARIABLES n, a, done
Kinds == {"symbols", "assignment", "trail", "ast", "str"}
Bounds == {None} \cup (-Bound..Bound)
Init == n \in 0..N /\ a \in Bounds /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<n, a>>
Cases == LET q == SetToSeq({<<a, b, d>> : b \in Bounds, d \in Steps}) IN
         [i \in 1..Len(q) |-> [c |-> <<q[i]>>, exp |-> Reads(Chain(<<q[i]>>, [j \in 1..n |-> j - 1]), n)]]
Plain == [c |-> <<>>, exp |-> Reads([j \in 1..n |-> j - 1], n)]
\* a slice never selects a position twice, and only existing ones
Sane == \A b \in Bounds, d \in Steps : LET p == Pos(<<a, b, d>>, n) IN
            /\ \A i \in 1..Len(p) : p[i] \in 0..n-1
            /\ \A i, j \in 1..Len(p) : i # j => p[i] # p[j]
All == LET k == SetToSeq(Kinds)  cs == <<Plain>> \o Cases
           in == [i \in 1..Len(cs) |-> cs[i].c]   ex == [i \in 1..Len(cs) |-> cs[i].exp]
       IN [i \in 1..Len(k) |-> [op |-> "reads", kind |-> k[i], n |-> n, cases |-> in, exp |-> [oneof |-> <<ex, "skip">>]]]
Emit == done \/ CSVWrite("%1$s", <<ToJson(All)>>, IOEnv.OUT)
=============================================================================
