----------------------------- MODULE SymbolsRnd -----------------------------
(* Random nested symbols and signatures. *)
EXTENDS Symbols, Json, CSV, IOUtils
VARIABLES h
RECURSIVE R(_, _)
R(d, x) ==
    LET k == RandomElement(1..(IF d = 0 THEN 6 ELSE 12)) IN
    CASE k = 1 -> RandomElement({Inf, Sup})
      [] k \in 2..3 -> Num(RandomElement({0, 1, -1, 42, 1000000, 2147483647, -2147483647}))
      [] k = 4 -> Str(Strs[RandomElement(1..Len(Strs))])
      [] k \in 5..6 -> RandomElement(Ids)
      [] OTHER -> \* nested; a nameless function is a tuple and has no sign
           LET n == RandomElement({"", "a", "b", "x", "a'"})
               m == RandomElement({1, 1, 2, 2, 3, 5})
           IN Fun(n, [i \in 1..m |-> R(d - 1, <<x, i>>)], n = "" \/ RandomElement({TRUE, TRUE, FALSE}))
Init == h = <<>>
Fixed(S) == SetToSortSeq(S, Less)
Next == \/ /\ Len(h) < 4
           /\ \E S \in {{R(3, <<h, i>>) : i \in 1..12}} :
              \E s \in {Fixed(S)} :
              h' = Append(h, [op |-> "syms", syms |-> s, sorted |-> TRUE,
                     exp |-> [bad |-> <<>>, text |-> [i \in 1..Len(s) |-> Text(s[i])], acc |-> s]])
        \/ Len(h) = 4 /\ h' = Append(h, [op |-> "end"])
        \/ Len(h) = 5 /\ UNCHANGED h
Emit == Len(h) # 5 \/ CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
