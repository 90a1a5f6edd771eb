------------------------------ MODULE Suggest ------------------------------
(***************************************************************************)
(* Which names may be suggested in place of a name that is not known.      *)
(* A name is a sequence of characters (numbers). A known name is near when *)
(* at most two characters were added, lost or replaced.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Near(_, _, _)
Near(a, b, k) ==
  IF a = <<>> \/ b = <<>> THEN Len(a) + Len(b) <= k
  ELSE IF a[1] = b[1] THEN Near(Tail(a), Tail(b), k)
  ELSE k > 0 /\ (Near(Tail(a), Tail(b), k - 1) \/ Near(Tail(a), b, k - 1) \/ Near(a, Tail(b), k - 1))

Reach == 2
Range(q) == {q[k] : k \in 1..Len(q)}
NearOnes(g, known) == {n \in known : Near(g, n, Reach)}

\* What may be said about the unknown name g: one of the near names, or else
\* that the name itself is known as the other kind of item, or else nothing.
Allowed(g, known, others) ==
  LET near == NearOnes(g, known) IN
  IF near # {} THEN {[how |-> "name", name |-> n] : n \in near}
  ELSE IF g \in others THEN {[how |-> "other", name |-> g]}
  ELSE {[how |-> "none", name |-> <<>>]}

------------------------------------------------- (* items of a body *)
\* c = [syn: "native" / "pack" / "json", attrs, blocks: names, items: <<[k: "a" / "b", n: name]>>]
Given(c) == {c.items[k].n : k \in {j \in 1..Len(c.items) : c.items[j].k = "a"}}
Used(c) == IF c.syn = "json" THEN {c.items[k].n : k \in 1..Len(c.items)} ELSE Given(c)
\* an argument can be given once, a block again and again
Free(c) == Range(c.attrs) \ Used(c)
Unknown(c) == {it \in Range(c.items) :
                 IF c.syn = "json" THEN it.n \notin Range(c.attrs) \cup Range(c.blocks)
                 ELSE IF it.k = "a" THEN it.n \notin Range(c.attrs) ELSE it.n \notin Range(c.blocks)}
Says(c, it) ==
  IF c.syn = "json" THEN Allowed(it.n, Free(c) \cup Range(c.blocks), {})
  ELSE IF it.k = "a" THEN Allowed(it.n, Free(c), Range(c.blocks))
  ELSE Allowed(it.n, Range(c.blocks), Range(c.attrs))

------------------------------------------------- (* names in expressions *)
\* c = [syn: "var" / "func", scopes: <<[none: BOOLEAN, names]>>, given]
Visible(c) == UNION {IF c.scopes[k].none THEN {} ELSE Range(c.scopes[k].names) : k \in 1..Len(c.scopes)}

------------------------------------------------- (* fixed words *)
Control == {<<105, 102>>, <<102, 111, 114>>, <<101, 108, 115, 101>>, <<101, 110, 100, 105, 102>>, <<101, 110, 100, 102, 111, 114>>}
JSONWords == {<<102, 97, 108, 115, 101>>, <<116, 114, 117, 101>>, <<110, 117, 108, 108>>}
Script == {<<117, 110, 100, 101, 102, 105, 110, 101, 100>>, <<78, 97, 78>>, <<73, 110, 102, 105, 110, 105, 116, 121>>}

SaysOf(c) ==
  CASE c.syn \in {"var", "func"} -> Allowed(c.given, Visible(c), {})
    [] c.syn = "control" -> Allowed(c.given, Control, {})
    [] c.syn = "jsonword" -> Allowed(c.given, IF c.given \in Script THEN {} ELSE JSONWords, {})
=============================================================================
