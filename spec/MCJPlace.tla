------------------------------ MODULE MCJPlace ------------------------------
(* Every small JSON document in every layout.                                *)
EXTENDS JPlace, Json, IOUtils, CSV
CONSTANT Deep
S(t) == <<"s", <<<<"t", t>>>>>>
N(t) == <<<<"t", t>>>>
R == <<"s", <<<<"t", "x">>, <<"r", "v">>, <<"r", "ww">>>>>>
Leaf == {S(""), S("a.b"), S("f(x)"), R, <<"w", "12">>, <<"w", "null">>}
Obj(ps) == <<"o", ps>>
O1 == {Obj(<<>>)} \cup {Obj(<<<<N("k"), x>>>>) : x \in Leaf} \cup {Obj(<<<<N("k"), S("")>>, <<<<<<"r", "v">>>>, R>>>>)}
A1 == {<<"a", <<>>>>} \cup {<<"a", <<x, y>>>> : x \in {R, <<"w", "12">>} \cup O1, y \in {S("")} \cup O1}
V1 == Leaf \cup O1 \cup A1
V2 == {Obj(<<<<N("l"), x>>>>) : x \in O1 \cup A1} \cup {Obj(<<<<N("l"), x>>, <<N("mm"), y>>>>) : x \in O1, y \in O1}
       \cup {<<"a", <<x, Obj(<<<<N("q"), x>>>>)>>>> : x \in O1}
\* what may be read as blocks with labels
Labelled(v) == v[1] = "o" \/ (v[1] = "a" /\ \A i \in 1..Len(v[2]) : v[2][i][1] = "o")
RECURSIVE Fits(_, _)
Fits(v, n) ==
  IF v = <<"w", "null">> THEN n = 0
  ELSE IF ~ Labelled(v) THEN FALSE
  ELSE IF n = 0 THEN TRUE
  ELSE LET os == IF v[1] = "o" THEN <<v>> ELSE v[2] IN
       /\ os # <<>>
       /\ \A i \in 1..Len(os) : os[i][2] # <<>> /\ \A k \in 1..Len(os[i][2]) : Fits(os[i][2][k][2], n - 1)
Docs == {Obj(<<<<N("b"), x>>>>) : x \in V1 \cup V2} \cup {Obj(<<<<N("a"), x>>, <<N("b"), y>>>>) : x \in {R, <<"w", "12">>, Obj(<<<<N("k"), R>>>>)}, y \in V2 \cup O1}
        \cup {<<"a", <<Obj(<<<<N("b"), x>>>>), Obj(<<<<N("a"), y>>>>)>>>> : x \in O1 \cup V2, y \in {R, Obj(<<<<N("k"), R>>>>), <<"a", <<Obj(<<>>)>>>>}} \cup {Obj(<<>>), <<"a", <<>>>>}
        \cup (IF Deep THEN {Obj(<<<<N("b"), Obj(<<<<N("z"), x>>, <<N("y"), y>>>>)>>>>) : x \in V2, y \in V2} ELSE {})
Fillers == {<<>>} \cup {[i \in 1..80 |-> w] : w \in {" ", "\n"}} \cup {[i \in 1..80 |-> IF i % 3 = 0 THEN "\n" ELSE IF i % 3 = 1 THEN "" ELSE "  "]}
VARIABLES doc, fill, nl
vars == <<doc, fill, nl>>
B(d) == LET os == IF d[1] = "o" THEN <<d>> ELSE d[2] IN {os[k][2][j][2] : <<k, j>> \in {x \in (1..Len(os)) \X (1..2) : x[2] <= Len(os[x[1]][2]) /\ os[x[1]][2][x[2]][1] = N("b")}}
Init == /\ doc \in Docs /\ fill \in Fillers
        /\ nl \in {n \in 0..2 : \A x \in B(doc) : Fits(x, n)} \cup {9}
Next == UNCHANGED vars
L == Laid(doc, fill)
\* parts lie within what holds them and do not overlap
RECURSIVE Nests(_)
Nests(p) ==
  LET n == Len(p[4]) IN
  CASE p[1] = "o" -> \A i \in 1..n : p[2] < p[4][i][2] /\ p[4][i][3] < p[4][i][4][2] /\ p[4][i][4][3] < p[3] /\ Nests(p[4][i][4]) /\ (i < n => p[4][i][4][3] < p[4][i + 1][2])
    [] p[1] = "a" -> \A i \in 1..n : p[2] < p[4][i][2] /\ p[4][i][3] < p[3] /\ Nests(p[4][i]) /\ (i < n => p[4][i][3] < p[4][i + 1][2])
    [] OTHER -> p[2] < p[3]
Nested == LET l == TLCEval(L) IN Nests(l.v) /\ l.v[3] <= Len(l.text)
\* a reference is where its name is written
Written == LET l == TLCEval(L) rs == Refs(l.v) IN \A i \in 1..Len(rs) : SubSeq(l.text, rs[i][2] + 1, rs[i][3]) = rs[i][1]
EmitCase ==
  LET l == TLCEval(L)
      at == TLCEval([p \in 0..Len(l.text) |-> Context(l.v, p)])
  IN CSVWrite("%1$s", <<ToJson([text |-> l.text, nl |-> nl, want |-> Seen(l.v, nl),
       ctx |-> {<<p, at[p]>> : p \in {p \in 0..Len(l.text) : p = 0 \/ at[p] # at[p - 1]}}])>>, IOEnv.OUT)
=============================================================================
