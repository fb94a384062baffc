------------------------------ MODULE AspGen ------------------------------
(* Random ground rules for behaviours generated by simulation. *)
EXTENDS Asp
(* Random rules (the argument makes TLC evaluate them anew at each use) *)
RSeq(S, lo, hi) == SubSeq(<<RandomElement(S), RandomElement(S), RandomElement(S)>>, 1, RandomElement(lo..hi))
RLit(S) == [a |-> RandomElement(S), s |-> RandomElement({0, 0, 1, 1, 2})]
RLit2(S) == [a |-> RandomElement(S), s |-> RandomElement({0, 1})]
RLits(S, lo, hi) == SubSeq(<<RLit(S), RLit(S), RLit(S)>>, 1, RandomElement(lo..hi))
RWLit(S) == [a |-> RandomElement(S), s |-> RandomElement({0, 1}), w |-> RandomElement(1..2)]
RWLits(S) == SubSeq(<<RWLit(S), RWLit(S), RWLit(S)>>, 1, RandomElement(1..3))
Dedup(s) == IF Len(s) <= 1 THEN s ELSE IF s[1] \in {s[i] : i \in 2..Len(s)} THEN SubSeq(s, 2, Len(s)) ELSE s

Kinds == <<"fact", "normal", "normal", "normal", "choice", "choice", "cbound", "disj", "constraint", "weight">>
MkRule(kind, hs, b, w, k) ==
    CASE kind = "fact" -> Rule(<<hs[1]>>, <<>>)
      [] kind = "normal" -> Rule(<<hs[1]>>, b)
      [] kind = "choice" -> Choice(hs, b)
      [] kind = "cbound" -> [Choice(hs, b) EXCEPT !.lo = k % 2, !.hi = 1 + (k \div 2)]
      [] kind = "disj" -> Rule(hs, b)
      [] kind = "constraint" -> Rule(<<>>, IF b = <<>> THEN <<[a |-> hs[1], s |-> 1]>> ELSE b)
      [] kind = "weight" -> [Rule(<<hs[1]>>, IF b = <<>> THEN b ELSE <<b[1]>>) EXCEPT !.w = w, !.k = 1 + k]
RandomRule(H, B, x) ==
    MkRule(Kinds[RandomElement(1..Len(Kinds))], Dedup(RSeq(H, 1, 2)), RLits(B, 0, 2), RWLits(B), RandomElement(0..3))

=============================================================================
