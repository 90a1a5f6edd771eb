------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* Canonical layout. A token is <<kind, width, ends line>>; the layout is    *)
(* the number of spaces before each token and depends on nothing else.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Opens == {"{", "[", "(", "interp", "control"}
Closes == {"}", "]", ")", "seqend"}
Change(t) == IF t[1] \in Opens THEN 1 ELSE IF t[1] \in Closes THEN -1 ELSE 0
Word(k) == k \in {"ident", "in"}
Nil == <<"nil", 0, FALSE>>
Literal == {"qlit", "slit"}
Before(T, i, from) == IF i > from THEN T[i - 1] ELSE Nil

\* is there a space between s and n, b being the token before s
Space(b, s, n) ==
  CASE n[1] = "newline" -> FALSE
    [] Word(s[1]) /\ n[1] = "(" -> FALSE
    [] s[1] = "." /\ b[1] = "number" /\ n[1] = "number" -> TRUE
    [] s[1] = "." \/ n[1] = "." -> FALSE
    [] n[1] \in {",", "ellipsis"} -> FALSE
    [] s[1] = "," -> TRUE
    [] s[1] \in Literal \cup {"oquote", "oheredoc"} \/ n[1] \in Literal \cup {"cquote", "cheredoc"} -> FALSE
    [] s[1] = "in" /\ Word(b[1]) -> TRUE
    [] n[1] = "[" /\ (Word(s[1]) \/ s[1] = "number" \/ s[1] \in Closes) -> FALSE
    [] s[1] = "-" -> b[1] \notin {"nil", "(", "{", "[", "=", ":", ",", "?", "+", "*", "/", "%", "-", "eqop", "neq", ">", "ge", "<", "le", "and", "or", "!"}
    [] s[1] = "{" \/ n[1] = "}" -> ~(s[1] = "{" /\ n[1] = "}")
    [] s[1] \in {"interp", "control"} /\ n[1] = "{" -> TRUE
    [] s[1] = "}" /\ n[1] = "seqend" -> TRUE
    [] s[1] = "seqend" /\ n[1] \in {"interp", "control"} -> FALSE
    [] s[1] \in Opens -> FALSE
    [] n[1] \in Closes -> FALSE
    [] OTHER -> TRUE

RECURSIVE Lines(_, _, _), Net(_, _, _), NetDoc(_, _, _), Pop(_, _), Indents(_, _, _, _), Cols(_, _, _, _)
Net(T, i, j) == IF i > j THEN 0 ELSE Change(T[i]) + Net(T, i + 1, j)
\* brackets after the start of a heredoc do not count
NetDoc(T, i, j) == IF i > j THEN 0 ELSE Change(T[i]) + (IF T[i][1] = "oheredoc" THEN 0 ELSE NetDoc(T, i + 1, j))

\* a line is [f, a, c, t]: first token, start of the assigned part, start of the
\* trailing comment, last token; a = c if nothing is assigned, c = t + 1 without comment
Line(T, f, t) ==
  LET c == IF t > f /\ T[t][1] = "comment" THEN t ELSE t + 1
      eqs == {i \in f + 1..c - 1 : T[i][1] = "="}
      e == CHOOSE i \in eqs : \A j \in eqs : i <= j
  IN [f |-> f, t |-> t, c |-> c, a |-> IF eqs # {} /\ Net(T, e, c - 1) = 0 THEN e ELSE c]
Lines(T, f, i) ==
  IF i > Len(T) THEN (IF f > Len(T) THEN <<>> ELSE <<Line(T, f, Len(T))>>)
  ELSE IF T[i][3] THEN <<Line(T, f, i)>> \o Lines(T, i + 1, i + 1)
  ELSE Lines(T, f, i + 1)

\* a line that closes brackets returns to the level of the line that opened them
Pop(stack, n) ==
  IF n = 0 \/ stack = <<>> THEN stack
  ELSE LET k == Len(stack) IN
       IF n > stack[k] THEN Pop(SubSeq(stack, 1, k - 1), n - stack[k])
       ELSE IF n < stack[k] THEN [stack EXCEPT ![k] = @ - n]
       ELSE SubSeq(stack, 1, k - 1)
Indents(T, ls, i, stack) ==
  IF i > Len(ls) THEN <<>>
  ELSE LET l == ls[i]
           net == NetDoc(T, l.f, l.a - 1) + Net(T, l.a, l.c - 1)
           down == IF net < 0 THEN Pop(stack, -net) ELSE stack
       IN IF T[l.f][1] = "newline" THEN <<0>> \o Indents(T, ls, i + 1, stack)
          ELSE <<2 * Len(down)>> \o Indents(T, ls, i + 1, IF net > 0 THEN Append(stack, net) ELSE down)

\* sum of spaces and widths of tokens i..j
Cols(T, sp, i, j) == IF i > j THEN 0 ELSE sp[i] + T[i][2] + Cols(T, sp, i + 1, j)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* has[k]: line k takes part; the maximal run of participating lines around k
Run(has, k) == {j \in 1..Len(has) : \A m \in 1..Len(has) : (m >= j /\ m <= k) \/ (m >= k /\ m <= j) => has[m]}

Layout(T) ==
  LET ls == Lines(T, 1, 1)
      ind == Indents(T, ls, 1, <<>>)
      L(i) == CHOOSE k \in 1..Len(ls) : ls[k].f <= i /\ i <= ls[k].t
      at == [i \in 1..Len(T) |-> L(i)]
      sp == [i \in 1..Len(T) |->
              LET k == at[i] l == ls[k] IN
              IF i = l.f THEN ind[k]
              ELSE IF i = l.a \/ i = l.c THEN 0
              ELSE LET from == IF i > l.a THEN l.a ELSE l.f IN
                   IF Space(Before(T, i - 1, from), T[i - 1], T[i]) THEN 1 ELSE 0]
      hasA == [k \in 1..Len(ls) |-> ls[k].a < ls[k].c]
      lead == [k \in 1..Len(ls) |-> Cols(T, sp, ls[k].f, ls[k].a - 1)]
      spA == [k \in 1..Len(ls) |-> IF hasA[k] THEN Max({lead[j] : j \in Run(hasA, k)}) - lead[k] + 1 ELSE 0]
      hasC == [k \in 1..Len(ls) |-> ls[k].c <= ls[k].t]
      full == [k \in 1..Len(ls) |-> lead[k] + spA[k] + Cols(T, sp, ls[k].a, ls[k].c - 1)]
      spC == [k \in 1..Len(ls) |-> IF hasC[k] THEN Max({full[j] : j \in Run(hasC, k)}) - full[k] + 1 ELSE 0]
  IN [i \in 1..Len(T) |-> IF i = ls[at[i]].c THEN spC[at[i]] ELSE IF i = ls[at[i]].a THEN spA[at[i]] ELSE sp[i]]
=============================================================================
