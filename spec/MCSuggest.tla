----------------------------- MODULE MCSuggest -----------------------------
(***************************************************************************)
(* Every small body with every small schema, and every small scope.        *)
(*   Edits: the near names are those that a table of edit distances gives. *)
(*   Said: exactly one of the ways to answer applies.                      *)
(***************************************************************************)
EXTENDS Suggest, Json, IOUtils, CSV
CONSTANTS What, Wide

VARIABLES c, done
vars == <<c, done>>

A == 97
B == 98
Pool == {<<A>>, <<A, B, A, B>>, <<A, B, A, B, B>>, <<B, B, B, B>>, <<A, A, A, A, A, A>>, <<B, B, B, B, A, A, A>>}
Small == Pool \ {<<B, B, B, B, A, A, A>>, <<A, B, A, B, B>>}
Names == IF Wide THEN Pool ELSE Small
Seqs(S, n) == UNION {{q \in [1..k -> S] : \A x, y \in 1..k : x # y => q[x] # q[y]} : k \in 0..n}
Items == {[k |-> k, n |-> n] : k \in {"a", "b"}, n \in Names}
Bodies == {[syn |-> s, attrs |-> q, blocks |-> bs, items |-> it] : s \in {"native", "pack", "json"}, q \in Seqs(Names, 2), bs \in Seqs(Names, IF Wide THEN 2 ELSE 1), it \in Seqs(Items, 2)}
\* in JSON the kind of an item is not written
Plain(x) == x.syn # "json" \/ (\A k \in 1..Len(x.items) : x.items[k].k = "a")

Scopes == {[none |-> TRUE, names |-> <<>>]} \cup {[none |-> FALSE, names |-> q] : q \in Seqs(Names, 2)}
InScopes == {[syn |-> s, scopes |-> q, given |-> g] : s \in {"var", "func"}, q \in UNION {[1..k -> Scopes] : k \in 1..2}, g \in Names}
Proper(x) == x.given \notin Visible(x) /\ \E k \in 1..Len(x.scopes) : ~x.scopes[k].none

\* one or two letters of a word changed, taken out or put in
Letters == {97, 101, 102, 120}
Sub(w, i, l) == [w EXCEPT ![i] = l]
Out(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
In(w, i, l) == SubSeq(w, 1, i - 1) \o <<l>> \o SubSeq(w, i, Len(w))
Around(w) == {Sub(w, i, l) : i \in 1..Len(w), l \in Letters} \cup {Out(w, i) : i \in 1..Len(w)} \cup {In(w, i, l) : i \in 1..(Len(w) + 1), l \in Letters}
Word2(S) == LET one == UNION {Around(w) : w \in S} IN (one \cup UNION {Around(w) : w \in one}) \ (S \cup {<<>>})
WordCases == {[syn |-> "control", given |-> g] : g \in Word2(Control)} \cup {[syn |-> "jsonword", given |-> g] : g \in Word2(JSONWords) \cup Script}

Init == c \in (IF What = "body" THEN {x \in Bodies : Plain(x)} ELSE IF What = "scope" THEN {x \in InScopes : Proper(x)} ELSE WordCases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c

Says1 == IF What = "body" THEN [says |-> {<<it.k, it.n, Says(c, it)>> : it \in Unknown(c)}] ELSE [says |-> {<<"a", c.given, SaysOf(c)>>}]
EmitCase == done => CSVWrite("%1$s", <<ToJson(c @@ Says1)>>, IOEnv.OUT)

------------------------------------------------- (* laws *)
Min(x, y) == IF x < y THEN x ELSE y
RECURSIVE Row(_, _, _, _)
\* the next row of the table: letter l after i letters, row p before it, row q so far
Row(b, l, p, q) ==
  IF Len(q) = Len(b) + 1 THEN q
  ELSE LET j == Len(q) IN Row(b, l, p, Append(q, Min(Min(p[j + 1] + 1, q[j] + 1), p[j] + IF b[j] = l THEN 0 ELSE 1)))
RECURSIVE Table(_, _, _, _)
Table(a, b, i, p) == IF i > Len(a) THEN p[Len(b) + 1] ELSE Table(a, b, i + 1, TLCEval(Row(b, a[i], p, <<i>>)))
Dist(a, b) == Table(a, b, 1, [j \in 1..(Len(b) + 1) |-> j - 1])
Subjects == IF What = "body" THEN {it.n : it \in Range(c.items)} ELSE {c.given}
Against == IF What = "words" THEN Control \cup JSONWords ELSE Names
Edits == ~done => \A g \in Subjects, n \in Against : (Near(g, n, Reach) <=> Dist(g, n) <= Reach) /\ Near(g, n, Reach) = Near(n, g, Reach)
Said == ~done => \A s \in Says1.says : s[3] # {} /\ Cardinality({x.how : x \in s[3]}) = 1
=============================================================================
