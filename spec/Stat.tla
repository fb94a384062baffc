-------------------------------- MODULE Stat --------------------------------
(***************************************************************************)
(* User statistics (C17).  Two trees of numbers, arrays and maps live as    *)
(* long as the control.  A write merges a value into the tree: numbers are  *)
(* replaced or computed from their old value, arrays are updated in place   *)
(* and grow at the end, maps keep what is not mentioned; writes that do not *)
(* fit are rejected.  Both trees are seen live and in the statistics that   *)
(* are reported after a search.                                             *)
(*                                                                          *)
(* [t |-> "v", v] number (in quarters)   [t |-> "a", e] array               *)
(* [t |-> "m", e] map: pairs [n, x] in order of insertion                   *)
(* [t |-> "f", add, init] (values only) a function of the old number        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS Lang, Depth
VARIABLES h, n, T, pend, exps, calls, peeked, opt
vars == <<h, n, T, pend, exps, calls, peeked, opt>>
One(S) == {RandomElement(S)}

Names == {"x", "y", "l", "m", "k v"}
Num(v) == [t |-> "v", v |-> v]
RECURSIVE Val(_, _), ValFor(_, _)
Val(d, u) ==
    LET k == RandomElement(1..(IF d = 0 THEN 6 ELSE 12)) IN
    CASE k <= 4 -> Num(RandomElement({-6, 0, 1, 4, 8, 400}))
      [] k \in {5, 6} -> [t |-> "f", add |-> RandomElement({4, -2, 0}), init |-> RandomElement({0, 4})]
      [] k = 7 -> [t |-> "a", e |-> <<>>]
      [] k = 8 -> [t |-> "a", e |-> <<Val(d - 1, u)>>]
      [] k = 9 -> [t |-> "a", e |-> <<Val(d - 1, u), Val(d - 1, u), Val(d - 1, u)>>]
      [] k = 10 -> [t |-> "m", e |-> <<>>]
      [] k = 11 -> LET a == RandomElement(Names) IN [t |-> "m", e |-> <<[n |-> a, x |-> ValFor(a, d - 1)]>>]
      [] OTHER -> LET a == RandomElement(Names) b == RandomElement(Names \ {a})
                  IN [t |-> "m", e |-> <<[n |-> a, x |-> ValFor(a, d - 1)], [n |-> b, x |-> ValFor(b, d - 1)]>>]
\* mostly the same kind of value below the same name
ValFor(a, d) == IF RandomElement(1..5) = 1 THEN Val(d, a)
                ELSE CASE a = "l" -> [t |-> "a", e |-> IF d <= 0 THEN <<>> ELSE <<Val(0, a), Val(0, a)>>]
                       [] a = "m" -> [t |-> "m", e |-> IF d <= 0 THEN <<>> ELSE <<[n |-> "x", x |-> Val(0, a)]>>]
                       [] OTHER -> Val(0, a)

Index(m, a) == IF \E i \in 1..Len(m) : m[i].n = a THEN CHOOSE i \in 1..Len(m) : m[i].n = a ELSE 0
RECURSIVE New(_), Fits(_, _), Upd(_, _), UpdM(_, _)
New(w) == CASE w.t = "v" -> w [] w.t = "f" -> Num(w.init)
            [] w.t = "a" -> [t |-> "a", e |-> [i \in 1..Len(w.e) |-> New(w.e[i])]]
            [] OTHER -> [t |-> "m", e |-> [i \in 1..Len(w.e) |-> [n |-> w.e[i].n, x |-> New(w.e[i].x)]]]
Kind(w) == IF w.t = "f" THEN "v" ELSE w.t
Fits(o, w) == /\ o.t = Kind(w)
              /\ CASE o.t = "v" -> TRUE
                   [] o.t = "a" -> \A i \in 1..Len(w.e) : i <= Len(o.e) => Fits(o.e[i], w.e[i])
                   [] OTHER -> \A i \in 1..Len(w.e) : LET j == Index(o.e, w.e[i].n) IN j > 0 => Fits(o.e[j].x, w.e[i].x)
UpdM(o, w) == IF w = <<>> THEN o
              ELSE LET j == Index(o, w[1].n)
                   IN UpdM(IF j > 0 THEN [o EXCEPT ![j] = [n |-> o[j].n, x |-> Upd(o[j].x, w[1].x)]]
                           ELSE Append(o, [n |-> w[1].n, x |-> New(w[1].x)]), Tail(w))
Upd(o, w) == CASE o.t = "v" -> Num(IF w.t = "f" THEN o.v + w.add ELSE w.v)
               [] o.t = "a" -> [t |-> "a", e |-> [i \in 1..(IF Len(o.e) > Len(w.e) THEN Len(o.e) ELSE Len(w.e)) |->
                                    IF i > Len(w.e) THEN o.e[i] ELSE IF i > Len(o.e) THEN New(w.e[i]) ELSE Upd(o.e[i], w.e[i])]]
               [] OTHER -> [t |-> "m", e |-> UpdM(o.e, w.e)]

\* addressing: a path is a sequence of names and (printed) indices
Idx(i) == ToString(i - 1)
RECURSIVE Walk(_, _, _), At(_, _), Put(_, _, _), Size(_), SizeS(_)
Walk(o, p, ks) ==
    IF o.t \notin ks /\ o.t = "v" THEN {}
    ELSE (IF o.t \in ks THEN {p} ELSE {}) \cup
         (CASE o.t = "v" -> {}
            [] o.t = "a" -> UNION {Walk(o.e[i], Append(p, Idx(i)), ks) : i \in 1..Len(o.e)}
            [] OTHER -> UNION {Walk(o.e[i].x, Append(p, o.e[i].n), ks) : i \in 1..Len(o.e)})
Pos(o, s) == IF o.t = "a" THEN CHOOSE i \in 1..Len(o.e) : Idx(i) = s ELSE Index(o.e, s)
At(o, p) == IF p = <<>> THEN o ELSE At(IF o.t = "a" THEN o.e[Pos(o, p[1])] ELSE o.e[Pos(o, p[1])].x, Tail(p))
Put(o, p, w) == IF p = <<>> THEN w
                ELSE LET i == Pos(o, p[1])
                     IN IF o.t = "a" THEN [t |-> "a", e |-> [o.e EXCEPT ![i] = Put(o.e[i], Tail(p), w)]]
                        ELSE [t |-> "m", e |-> [o.e EXCEPT ![i] = [n |-> o.e[i].n, x |-> Put(o.e[i].x, Tail(p), w)]]]
SizeS(s) == IF s = <<>> THEN 0 ELSE Size(s[1]) + SizeS(Tail(s))
Size(o) == CASE o.t = "v" -> 1 [] o.t = "a" -> 1 + SizeS(o.e) [] OTHER -> 1 + SizeS([i \in 1..Len(o.e) |-> o.e[i].x])
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

Do(s, e) == pend' = Append(pend, s) /\ exps' = Append(exps, e)
Rej(s) == Do(s, "error") /\ UNCHANGED T
Grow(r, p, w) == LET t2 == Put(T[r], p, w) IN Size(t2) <= 60 /\ T' = [T EXCEPT ![r] = t2]
Nop == UNCHANGED <<T, pend, exps>>

\* assignment to a name or index
Set(r) == \E p \in One(Walk(T[r], <<>>, {"m", "a"})) : \E o \in {At(T[r], p)} :
          \E a \in One(IF o.t = "m" THEN Names ELSE {Idx(i) : i \in 1..(Len(o.e) + 1)}) :
          LET j == IF o.t = "m" THEN Index(o.e, a) ELSE IF \E i \in 1..Len(o.e) : Idx(i) = a THEN Pos(o, a) ELSE 0 IN
          \E w \in {IF o.t = "m" THEN ValFor(a, 2) ELSE Val(1, a)} : \E sty \in One({"item", "update"}) :
          LET s == [do |-> "set", root |-> r, path |-> p, key |-> a, arr |-> o.t = "a", val |-> w, style |-> IF o.t = "a" THEN "item" ELSE sty] IN
          IF j = 0
          THEN IF o.t = "a" THEN Rej(s)
               ELSE Do(s, "ok") /\ Grow(r, p, [t |-> "m", e |-> Append(o.e, [n |-> a, x |-> New(w)])])
          ELSE LET x == IF o.t = "m" THEN o.e[j].x ELSE o.e[j]
               IN IF Fits(x, w) THEN Do(s, "ok") /\ Grow(r, Append(p, a), Upd(x, w))
                  ELSE IF x.t # Kind(w) /\ (w.t = "m" => w.e # <<>>) THEN Rej(s) ELSE Nop
\* whole containers
Update(r) == \E p \in One(Walk(T[r], <<>>, {"m", "a"})) : \E o \in {At(T[r], p)} : \E w \in {Val(2, n)} :
             /\ Kind(w) = o.t /\ Fits(o, w)
             /\ Do([do |-> "update", root |-> r, path |-> p, val |-> w], "ok") /\ Grow(r, p, Upd(o, w))
Extend(r) == LET ps == Walk(T[r], <<>>, {"a"}) IN
             /\ ps # {}
             /\ \E p \in One(ps) : \E o \in {At(T[r], p)} : \E w \in {Val(1, n)} : \E w2 \in {Val(1, n + 1)} : \E sty \in One({"append", "extend", "iadd", "self"}) :
                LET ws == CASE sty = "append" -> <<w>> [] sty = "self" -> o.e [] OTHER -> <<w, w2>>
                IN /\ Do([do |-> "extend", root |-> r, path |-> p, vals |-> IF sty = "self" THEN <<>> ELSE ws, style |-> sty], "ok")
                   /\ Grow(r, p, [t |-> "a", e |-> o.e \o [i \in 1..Len(ws) |-> New(ws[i])]])
\* a part of a tree as value
Copy(r) == \E r2 \in One({1, 2}) : \E p2 \in One(Walk(T[r2], <<>>, {"m", "a", "v"})) : \E a \in One(Names) : \E p \in One(Walk(T[r], <<>>, {"m"})) :
           LET o == At(T[r], p) j == Index(o.e, a) w == At(T[r2], p2) s == [do |-> "copy", root |-> r, path |-> p, key |-> a, root2 |-> r2, path2 |-> p2]
           IN IF r = r2 /\ (Prefix(p2, Append(p, a)) \/ Prefix(Append(p, a), p2)) THEN Nop
              ELSE IF j = 0 THEN Do(s, "ok") /\ Grow(r, p, [t |-> "m", e |-> Append(o.e, [n |-> a, x |-> New(w)])])
              ELSE IF Fits(o.e[j].x, w) THEN Do(s, "ok") /\ Grow(r, Append(p, a), Upd(o.e[j].x, w))
              ELSE Nop
Read(r) == \E p \in One(Walk(T[r], <<>>, {"m", "a", "v"})) : \E sty \in One({"index", "iter"}) :
           Do([do |-> "read", root |-> r, path |-> p, style |-> sty], At(T[r], p)) /\ UNCHANGED T
Bad(r) == \E p \in One(Walk(T[r], <<>>, {"m", "a"})) : \E o \in {At(T[r], p)} : \E q \in One(1..7) :
          LET mk(w, a) == Rej([do |-> "bad", root |-> r, path |-> p, what |-> w, key |-> a, arr |-> o.t = "a"])
          IN CASE q <= 2 -> mk("get", IF o.t = "a" THEN ToString(Len(o.e) + (q - 1)) ELSE "none")
               [] q = 3 -> mk("add", "none")
               [] q = 4 /\ Lang = "py" -> mk("del", IF o.t = "a" \/ Len(o.e) = 0 THEN "0" ELSE o.e[1].n)
               [] q = 5 /\ Lang = "py" /\ o.t = "a" -> mk("insert", "0")
               [] q = 6 /\ Lang = "py" -> mk("str", "x")
               [] q = 7 /\ Lang = "py" /\ o.t = "a" -> mk("neg", "-1")
               [] OTHER -> Nop
HasKey(r) == \E p \in One(Walk(T[r], <<>>, {"m"})) : \E a \in One(Names \cup {"", "0"}) :
               Do([do |-> "has", root |-> r, path |-> p, key |-> a], Index(At(T[r], p).e, a) > 0) /\ UNCHANGED T

Costs == CASE opt = 0 -> <<>> [] opt = 1 -> <<1>> [] OTHER -> <<1, 5>>
\* the engine's own figures: search number, models, optima and their costs
Report(c) == [step |-> T[1], accu |-> T[2], call |-> IF c = 0 THEN 0 ELSE c - 1, models |-> IF c = 0 THEN 0 ELSE IF opt = 0 THEN 4 ELSE -1,
              optimal |-> IF c = 0 \/ opt = 0 THEN 0 ELSE 1, costs |-> IF c = 0 THEN <<>> ELSE Costs]
Run == /\ \E m \in One(IF Lang = "lua" THEN {"cb", "yield"} ELSE {"cb", "yield", "async"}) :
          h' = h \o <<[op |-> "s_run", ops |-> pend, mode |-> m, exp |-> [ops |-> exps, calls |-> 1]],
                      [op |-> "s_read", exp |-> Report(calls + 1)]>>
       /\ pend' = <<>> /\ exps' = <<>> /\ calls' = calls + 1 /\ peeked' = FALSE /\ UNCHANGED T
\* reading before the first search, or again
Peek == /\ pend = <<>> /\ ~peeked /\ peeked' = TRUE
        /\ h' = Append(h, [op |-> "s_read", exp |-> Report(calls)])
        /\ UNCHANGED <<T, pend, exps, calls>>

Empty == [t |-> "m", e |-> <<>>]
Init == n = 0 /\ T = <<Empty, Empty>> /\ pend = <<>> /\ exps = <<>> /\ calls = 0 /\ peeked = FALSE /\ opt \in One({0, 1, 2}) /\ h = <<[op |-> "s_new", opt |-> opt]>>
Live == \E r \in One({1, 2}) : \E k \in One(1..16) :
        IF k <= 5 THEN (Set(r) \/ Nop) ELSE IF k <= 7 THEN (Update(r) \/ Nop) ELSE IF k <= 9 THEN (Extend(r) \/ Nop)
        ELSE IF k <= 11 THEN (Copy(r) \/ Nop) ELSE IF k <= 13 THEN Read(r) ELSE IF k = 14 THEN HasKey(r) ELSE (Bad(r) \/ Nop)
Next == \/ /\ n < Depth /\ n' = n + 1 /\ UNCHANGED opt
           /\ \E k \in One(1..10) :
              IF n = Depth - 1 \/ (k = 1 /\ (Len(pend) > 1 \/ Lang = "lua")) THEN Run
              ELSE IF k = 2 THEN (Peek \/ UNCHANGED <<h, T, pend, exps, calls, peeked>>)
              ELSE IF Lang = "lua" THEN UNCHANGED <<h, T, pend, exps, calls, peeked>>
              ELSE Live /\ UNCHANGED <<h, calls, peeked>>
        \/ n >= Depth /\ n' = Depth + 1 /\ UNCHANGED <<h, T, pend, exps, calls, peeked, opt>>
Emit == n # Depth + 1 \/ CSVWrite("%1$s", <<ToJson(Append(h, [op |-> "end"]))>>, IOEnv.OUT)
=============================================================================
