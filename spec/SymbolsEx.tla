----------------------------- MODULE SymbolsEx -----------------------------
(* All symbols up to a small depth: the order is a strict total order (checked *)
(* by TLC pair by pair), and the sorted sequence is replayed into the code.    *)
EXTENDS Symbols, Json, CSV, IOUtils
CONSTANT U
VARIABLES x, y
Univ == IF U = 1 THEN Base \cup Level1 ELSE Base \cup Level1 \cup Level2
Init == x \in Univ /\ y \in Univ
Next == FALSE /\ UNCHANGED <<x, y>>
Total == (x = y) \/ (Less(x, y) # Less(y, x))
Irref == ~Less(x, x)
\* transitivity through the sorted sequence: every element below all its successors
Sorted == LET s == SetToSortSeq(Univ, Less) IN s
Emit == x # Inf \/ y # Inf \/
    \E s \in {Sorted} :
    /\ \A i, j \in 1..Len(s) : i < j => Less(s[i], s[j])
    /\ CSVWrite("%1$s", <<ToJson(<<[op |-> "syms", syms |-> s, sorted |-> TRUE,
          exp |-> [bad |-> <<>>, text |-> [i \in 1..Len(s) |-> Text(s[i])], acc |-> s]]>>)>>, IOEnv.OUT)
=============================================================================
