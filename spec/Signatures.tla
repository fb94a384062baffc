----------------------------- MODULE Signatures -----------------------------
(* Signatures: ordered by sign, then arity, then name (C09). *)
EXTENDS Symbols, Json, CSV, IOUtils
VARIABLES x, y
Sg(n, k, p) == [n |-> n, k |-> k, p |-> p]
Univ == {Sg(Names[i], k, p) : i \in 2..Len(Names), k \in 0..3, p \in BOOLEAN}
SLess(a, b) == IF a.p # b.p THEN a.p ELSE IF a.k # b.k THEN a.k < b.k ELSE PosIn(Names, a.n) < PosIn(Names, b.n)
Init == x \in Univ /\ y \in Univ
Next == FALSE /\ UNCHANGED <<x, y>>
Top == CHOOSE a \in Univ : \A b \in Univ : ~SLess(b, a)
Emit == /\ x = y \/ SLess(x, y) # SLess(y, x)
        /\ x # Top \/ y # Top \/
           \E s \in {SetToSortSeq(Univ, SLess)} :
           CSVWrite("%1$s", <<ToJson(<<[op |-> "sigs", sigs |-> s,
             exp |-> [bad |-> <<>>, acc |-> [i \in 1..Len(s) |-> [n |-> s[i].n, k |-> s[i].k, p |-> s[i].p,
                text |-> (IF s[i].p THEN "" ELSE "-") \o s[i].n \o "/" \o ToString(s[i].k)]]]]>>)>>, IOEnv.OUT)
=============================================================================
