------------------------------ MODULE Symbols ------------------------------
(* The value domain of symbols (C09): what they are built from, their order, *)
(* their text.  Also used by other specifications that need symbols.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* names and strings in strcmp order ("~" stands for some non-ASCII text)
Names == <<"", "_x", "a", "a'", "a1", "aB", "a_", "aa", "b", "nota", "x">>
Strs == <<"", "\t", "\n", "\n\n", " ", "\"", "\"\\", "(", "A", "\\", "\\\\", "\\n", "a", "ab", "b", "~", "~~">>
PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

Inf == [t |-> "inf"]
Sup == [t |-> "sup"]
Num(n) == [t |-> "num", v |-> n]
Str(s) == [t |-> "str", v |-> s]
Fun(n, a, p) == [t |-> "fun", n |-> n, a |-> a, p |-> p]
IsId(s) == s.t = "fun" /\ s.a = <<>>

Class(s) == CASE s.t = "inf" -> 0 [] s.t = "num" -> 1 [] s.t = "str" -> 4 [] s.t = "sup" -> 7
              [] OTHER -> IF s.a = <<>> THEN (IF s.p THEN 2 ELSE 3) ELSE 5

RECURSIVE Less(_, _)
LessArgs(a, b) == \E i \in 1..Len(a) : Less(a[i], b[i]) /\ \A j \in 1..i-1 : a[j] = b[j]
Less(x, y) ==
    IF Class(x) # Class(y) THEN Class(x) < Class(y)
    ELSE CASE x.t = "num" -> x.v < y.v
           [] x.t = "str" -> PosIn(Strs, x.v) < PosIn(Strs, y.v)
           [] x.t = "fun" ->
                IF x.p # y.p THEN x.p
                ELSE IF Len(x.a) # Len(y.a) THEN Len(x.a) < Len(y.a)
                ELSE IF x.n # y.n THEN PosIn(Names, x.n) < PosIn(Names, y.n)
                ELSE LessArgs(x.a, y.a)
           [] OTHER -> FALSE

EscChar(c) == CASE c = "\n" -> "\\n" [] c = "\\" -> "\\\\" [] c = "\"" -> "\\\"" [] OTHER -> c
RECURSIVE Esc(_)
Esc(s) == IF Len(s) = 0 THEN "" ELSE EscChar(SubSeq(s, 1, 1)) \o Esc(SubSeq(s, 2, Len(s)))
RECURSIVE Text(_)
JoinC(s) == IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o "," \o b, s[1], SubSeq(s, 2, Len(s)))
Text(s) ==
    CASE s.t = "inf" -> "#inf" [] s.t = "sup" -> "#sup"
      [] s.t = "num" -> ToString(s.v)
      [] s.t = "str" -> "\"" \o Esc(s.v) \o "\""
      [] OTHER -> (IF s.p THEN "" ELSE "-") \o s.n
                  \o (IF s.a = <<>> THEN (IF s.n = "" THEN "()" ELSE "")
                      ELSE "(" \o JoinC([i \in 1..Len(s.a) |-> Text(s.a[i])]) \o (IF s.n = "" /\ Len(s.a) = 1 THEN "," ELSE "") \o ")")

Nums == {Num(n) : n \in {0, 1, -1, 7, 2147483647, -2147483647}}
Ids == {Fun(n, <<>>, p) : n \in {Names[i] : i \in 2..Len(Names)}, p \in BOOLEAN}
Base == {Inf, Sup, Fun("", <<>>, TRUE)} \cup Nums \cup {Str(Strs[i]) : i \in 1..Len(Strs)} \cup Ids
Small == {Inf, Sup, Num(1), Num(-1), Str("a"), Fun("a", <<>>, FALSE), Fun("b", <<>>, TRUE)}
Level1 == {Fun(n, <<x>>, TRUE) : n \in {"", "a", "aa"}, x \in Small}
          \cup {Fun("b", <<x>>, FALSE) : x \in Small}
          \cup {Fun(n, <<x, y>>, TRUE) : n \in {"", "b"}, x, y \in Small}
          \cup {Fun("a", <<x, y>>, p) : x \in {Num(1), Str("")}, y \in Small, p \in BOOLEAN}
Level2 == {Fun(n, <<x, y>>, TRUE) : n \in {"", "x"}, x \in {Fun("a", <<Num(1)>>, FALSE), Fun("", <<Num(1), Num(7)>>, TRUE), Fun("", <<>>, TRUE)},
                                    y \in {Fun("a", <<Num(1)>>, TRUE), Str("\\"), Fun("", <<Sup>>, TRUE)}}
          \cup {Fun("a", <<x, x, x>>, p) : x \in Small, p \in BOOLEAN}
=============================================================================
