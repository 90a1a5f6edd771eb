-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Walking a syntax tree.                                                  *)
(*                                                                         *)
(* A tree node is [k: kind, c: children, n: names it binds, l: whether it  *)
(* is an object key that is just a name]. An absent child is <<>>.         *)
(*   for    children: collection, key, value, condition; all but the first *)
(*          are walked within a scope that binds the node's names          *)
(*   key    an object key; its expression is walked unless it is a name    *)
(* every other kind walks all its children.                                *)
(*                                                                         *)
(* A visit is [p: path from the root, s: whether it is the scope around    *)
(* the node there, n: names bound, kids: visits below it]. A walk enters   *)
(* the root, and whenever inside a visit either enters one of the visits   *)
(* below that was not entered yet or, when none is left, leaves. Which one *)
(* comes first is not promised.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Node(k, c) == [k |-> k, c |-> c, n |-> <<>>, l |-> FALSE]
RangeOf(q) == {q[j] : j \in 1..Len(q)}

RECURSIVE Visit(_, _)
Scope(t, p, names) == [p |-> p, s |-> TRUE, n |-> names, kids |-> {Visit(t, p)}]
Visit(t, p) ==
  LET There == {j \in 1..Len(t.c) : t.c[j] # <<>>} IN
  [p |-> p, s |-> FALSE, n |-> {},
   kids |-> CASE t.k = "for" -> {IF j = 1 THEN Visit(t.c[j], Append(p, j)) ELSE Scope(t.c[j], Append(p, j), RangeOf(t.n)) : j \in There}
              [] t.k = "key" /\ t.l -> {}
              [] OTHER -> {Visit(t.c[j], Append(p, j)) : j \in There}]
Root(t) == Visit(t, <<>>)

RECURSIVE AllVisits(_)
AllVisits(v) == {v} \cup UNION {AllVisits(x) : x \in v.kids}

\* The walk as a machine: a frame is [v: visit, left: visits below it that
\* were not entered yet].
Frame(v) == [v |-> v, left |-> v.kids]
Top(st) == st[Len(st)]
MayEnter(st) == Top(st).left
MayLeave(st) == Top(st).left = {}
Entered(st, x) == Append([st EXCEPT ![Len(st)].left = @ \ {x}], Frame(x))
Left(st) == SubSeq(st, 1, Len(st) - 1)

\* Does a recorded walk follow the machine? An event is [e, p, s, n].
Same(v, ev) == v.p = ev.p /\ v.s = ev.s /\ v.n = RangeOf(ev.n)
RECURSIVE Follows(_, _, _)
Follows(evs, j, st) ==
  IF j > Len(evs) THEN st = <<>>
  ELSE IF st = <<>> THEN FALSE
  ELSE LET ev == evs[j] IN
       IF ev.e = "out" THEN Same(Top(st).v, ev) /\ MayLeave(st) /\ Follows(evs, j + 1, Left(st))
       ELSE LET xs == {x \in MayEnter(st) : Same(x, ev)} IN
            xs # {} /\ Follows(evs, j + 1, Entered(st, CHOOSE x \in xs : TRUE))
WalkOk(t, evs) ==
  LET r == Root(t) IN
  Len(evs) > 0 /\ evs[1].e = "in" /\ Same(r, evs[1]) /\ Follows(evs, 2, <<Frame(r)>>)

\* A plain visit of all nodes: every visit once, a node before those below.
Id(v) == <<v.p, v.s>>
Above(a, b) == \* visit a is an ancestor of b
  \/ Len(a[1]) < Len(b[1]) /\ SubSeq(b[1], 1, Len(a[1])) = a[1]
  \/ a[1] = b[1] /\ a[2] /\ ~b[2]
VisitOk(t, ids) ==
  LET all == {Id(v) : v \in AllVisits(Root(t))} IN
  /\ RangeOf(ids) = all /\ Len(ids) = Cardinality(all)
  /\ \A j \in 1..Len(ids) : \A k \in 1..(j - 1) : ~Above(ids[j], ids[k])
=============================================================================
