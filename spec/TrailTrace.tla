----------------------------- MODULE TrailTrace -----------------------------
(***************************************************************************)
(* C07: what propagators see.  A trace is the sequence of callbacks of one  *)
(* propagator over a number of solve calls.  Every snapshot has to be one   *)
(* consistent partial assignment, and the callbacks of each thread have to  *)
(* nest: N[t] is the stack of reported changes by decision level, W[t] the  *)
(* watches, D[t] the last decision.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
\* Gone[t]: watches removed when the literal was true already, its change may still be on the way
VARIABLES t, i, W, N, D, Late, Gone, mode, upset, bad
vars == <<t, i, W, N, D, Late, Gone, mode, upset, bad>>
Set(s) == {s[j] : j \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Opt(b, why) == IF b THEN {} ELSE {why}
\* ------------------------------------------------------------ snapshots
\* levels are 0..dl; s.seg[l + 1] etc. is what belongs to level l
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
Rev(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
Val(T, x) == IF x \in T THEN "t" ELSE IF -x \in T THEN "f" ELSE "u"
\* undone: the current level is being retracted
Cons(s, undone) ==
    LET n == s.dl + 1 T == Set(s.trail) IN
    UNION {
      Opt(Len(s.begin) = n /\ Len(s.end) = n /\ Len(s.dec) = n /\ Len(s.seg) = n, "levels"),
      Opt(s.begin[1] = 0 /\ s.end[n] = Len(s.trail) /\ \A l \in 1..s.dl : s.end[l] = s.begin[l + 1], "segments cover the trail"),
      Opt(s.index = s.trail /\ s.rev = Rev(s.trail) /\ Concat(s.seg) = s.trail, "trail access"),
      Opt(\A l \in 1..n : s.seg[l] = SubSeq(s.trail, s.begin[l] + 1, s.end[l]), "segment"),
      Opt(\A l \in 1..n : (l < n \/ ~undone) => (s.seg[l] # <<>> /\ s.seg[l][1] = s.dec[l]), "decision first"),
      Opt(Cardinality({Abs(x) : x \in T}) = Len(s.trail), "each variable once"),
      Opt(s.size = Len(s.lits) /\ s.alits = s.lits /\ Cardinality(Set(s.lits)) = s.size /\ \A x \in Set(s.lits) : x > 0, "variables"),
      Opt(T \subseteq (Set(s.lits) \cup {-x : x \in Set(s.lits)}), "trail over variables"),
      Opt(s.total = (Len(s.trail) = s.size), "total"),
      Opt(s.root >= 0 /\ s.root <= s.dl, "root level"),
      Opt(s.beyond = <<FALSE, FALSE>>, "has literal"),
      Opt(Len(s.vals) = 2 * s.size, "values"),
      LET A == UNION {{<<x, l - 1>> : x \in Set(s.seg[l])} : l \in 1..Len(s.seg)}
          F == {x \in Set(s.lits) : x \notin T /\ -x \notin T} IN
      Opt(Set(s.vals) = {<<a[1], "t", TRUE, FALSE, FALSE, a[2] = 0, a[2], TRUE>> : a \in A} \cup {<<-a[1], "f", FALSE, TRUE, FALSE, a[2] = 0, a[2], TRUE>> : a \in A}
                        \cup UNION {{<<x, "u", FALSE, FALSE, TRUE, FALSE, 0, TRUE>>, <<-x, "u", FALSE, FALSE, TRUE, FALSE, 0, TRUE>>} : x \in F}, "value of a literal") }
\* ------------------------------------------------------------ callbacks
True(s) == Set(s.trail)
Told(q) == UNION {Set(q[j].ch) : j \in 1..Len(q)}
Ev == Traces[t].ev[i]
Thr(e) == e.tid + 1
\* no level above the current one may have been left without an undo
Kept(e) == LET q == N[Thr(e)] IN \A j \in 1..Len(q) : q[j].lvl <= e.s.dl
Decided(e) == LET d == D[Thr(e)] IN d.lit = 0 \/ e.s.root >= d.lvl \/ e.s.dl < d.lvl \/ (e.s.dl = d.lvl /\ e.s.dec[e.s.dl + 1] = d.lit) \/ e.s.dl > d.lvl
Reasons(e) ==
    CASE e.ev = "init" -> Cons(e.s, FALSE) \cup Opt(e.s.dl = 0 /\ ~e.s.total = (Len(e.s.trail) < e.s.size), "init at the top") \cup Opt(e.thr = e.threads, "threads")
      [] e.ev = "watch" -> Opt(e.has = e.on, "has watch")
      [] Thr(e) \notin DOMAIN W -> {"thread id"}
      [] e.ev = "propagate" ->
           Cons(e.s, FALSE) \cup Opt(e.ch # <<>>, "changes") \cup Opt(e.idx = e.ch /\ e.half = SubSeq(e.ch, 1, Len(e.ch) \div 2), "change access")
           \cup Opt(Cardinality(Set(e.ch)) = Len(e.ch), "changes repeated") \cup Opt(Set(e.ch) \subseteq (W[Thr(e)] \cup Gone[Thr(e)]), "not watched")
           \cup Opt(Set(e.ch) \subseteq True(e.s), "not true") \cup Opt(Set(e.ch) \cap Told(N[Thr(e)]) = {}, "told before")
           \cup Opt(Kept(e), "missing undo") \cup Opt(~e.s.conf, "conflict") \cup Opt(Decided(e), "decision")
      [] e.ev = "undo" ->
           LET q == N[Thr(e)] IN
           Cons(e.s, TRUE) \cup Opt(e.s.dl > 0, "undo at the top") \cup Opt(Kept(e), "missing undo")
           \cup (IF q # <<>> /\ q[Len(q)].lvl = e.s.dl THEN Opt(e.ch = q[Len(q)].ch, "undone changes") ELSE Opt(e.ch = <<>>, "undo of nothing"))
      [] e.ev = "check" ->
           Cons(e.s, FALSE) \cup Opt(Kept(e), "missing undo") \cup Opt(~e.s.conf, "conflict") \cup Opt(Decided(e), "decision")
           \cup Opt(mode # "off", "check not asked for") 
           \* the solver may check once more after going back because of a constraint
           \cup Opt(mode # "total" \/ upset \/ e.s.total, "check before total")
           \cup Opt((W[Thr(e)] \cap True(e.s)) \ Late[Thr(e)] \subseteq Told(N[Thr(e)]), "change not told")
      [] OTHER ->
           Cons(e.s, FALSE) \cup Opt(Kept(e), "missing undo") \cup Opt(~e.s.total /\ ~e.s.conf, "decide") \cup Opt(Decided(e), "decision")
           \cup Opt(e.fb = 0 \/ Val(True(e.s), e.fb) = "u", "fallback") \cup Opt(e.res = 0 \/ Val(True(e.s), e.res) = "u", "result")
           \cup Opt((W[Thr(e)] \cap True(e.s)) \ Late[Thr(e)] \subseteq Told(N[Thr(e)]), "change not told")
\* changes told at the same level belong together
Push(q, l, ch) == IF q # <<>> /\ q[Len(q)].lvl = l THEN [q EXCEPT ![Len(q)].ch = @ \o ch] ELSE Append(q, [lvl |-> l, ch |-> ch])
Drop(q) == SubSeq(q, 1, Len(q) - 1)
NoD == [lvl |-> 0, lit |-> 0]
Step(e) ==
    CASE e.ev = "init" ->
           \* watches stay for later searches
           /\ W' = [k \in 1..e.thr |-> ((IF k \in DOMAIN W THEN W[k] ELSE {}) \cup Set(e.watch[k])) \ Set(e.unwatch[k])]
           /\ N' = [k \in 1..e.thr |-> IF k \in DOMAIN N THEN SelectSeq(N[k], LAMBDA x : x.lvl = 0) ELSE <<>>] /\ D' = [k \in 1..e.thr |-> NoD]
           /\ Late' = [k \in 1..e.thr |-> IF k \in DOMAIN Late THEN Late[k] \cup True(e.s) ELSE True(e.s)]
           /\ Gone' = [k \in 1..e.thr |-> (IF k \in DOMAIN Gone THEN Gone[k] ELSE {}) \cup (Set(e.unwatch[k]) \cap True(e.s))] /\ mode' = e.mode /\ upset' = (e.upset \/ e.thr > 1)
      [] e.ev = "watch" ->
           /\ W' = [W EXCEPT ![Thr(e)] = IF e.on THEN @ \cup {e.lit} ELSE @ \ {e.lit}]
           /\ Late' = [Late EXCEPT ![Thr(e)] = @ \cup {e.lit}]
           /\ Gone' = (IF ~e.on /\ e.val THEN [Gone EXCEPT ![Thr(e)] = @ \cup {e.lit}] ELSE Gone) /\ UNCHANGED <<N, D, mode, upset>>
      [] e.ev = "propagate" -> N' = [N EXCEPT ![Thr(e)] = Push(@, e.s.dl, e.ch)] /\ D' = [D EXCEPT ![Thr(e)] = NoD] /\ UNCHANGED <<W, Late, Gone, mode, upset>>
      [] e.ev = "undo" -> N' = [N EXCEPT ![Thr(e)] = IF @ # <<>> /\ @[Len(@)].lvl = e.s.dl THEN Drop(@) ELSE @] /\ D' = [D EXCEPT ![Thr(e)] = NoD] /\ UNCHANGED <<W, Late, Gone, mode, upset>>
      [] e.ev = "decide" -> D' = [D EXCEPT ![Thr(e)] = [lvl |-> e.s.dl + 1, lit |-> IF e.res # 0 THEN e.res ELSE e.fb]] /\ UNCHANGED <<W, N, Late, Gone, mode, upset>>
      [] OTHER -> D' = [D EXCEPT ![Thr(e)] = NoD] /\ UNCHANGED <<W, N, Late, Gone, mode, upset>>
Init == t \in 1..Len(Traces) /\ i = 1 /\ W = <<>> /\ N = <<>> /\ D = <<>> /\ Late = <<>> /\ Gone = <<>> /\ mode = "" /\ upset = FALSE /\ bad = {}
Next == IF bad # {} \/ i > Len(Traces[t].ev) THEN UNCHANGED vars
        ELSE \E r \in {Reasons(Ev)} :
             /\ bad' = r /\ t' = t /\ i' = i + 1
             /\ IF r = {} THEN Step(Ev) ELSE PrintT(<<"BAD", t, i, r>>) /\ UNCHANGED <<W, N, D, Late, Gone, mode, upset>>
Fine == IF IOEnv.STRICT = "1" THEN bad = {} ELSE TRUE
=============================================================================
