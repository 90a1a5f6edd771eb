------------------------------- MODULE MCPlace -------------------------------
(* Every small expression in every arrangement of items.                     *)
EXTENDS Place, Json, IOUtils, CSV
CONSTANT Deep
V(n) == <<"var", n>>
Lit(v) == <<"lit", v>>
One == Lit(<<"num", 1, 1>>)
Str == Lit(<<"str", "s">>)
A0 == {V("a"), One, Str}
W(e) == IF e[1] \in {"bin", "cond", "un"} THEN <<"paren", e>> ELSE e
\* what a step may follow
C(e) == IF e[1] \in {"var", "attr", "idx", "call", "tuple", "obj", "fort"} THEN e ELSE IF e[1] \in {"bin", "cond"} THEN <<"paren", e>> ELSE V("c")
K(e) == IF e[1] \in {"lit", "paren"} THEN V("k") ELSE e
Over(S) ==
     {<<"paren", x>> : x \in S}
  \cup {<<"attr", C(x), "n">> : x \in S} \cup {<<"idx", C(x), k>> : x \in S, k \in {One, Str, V("k")}} \cup {<<"idx", V("c"), K(x)>> : x \in S}
  \cup {<<"splat", C(x), f, ns>> : x \in S, f \in {"attr", "full"}, ns \in {<<>>, <<"m">>, <<"m", "n">>}}
  \cup {<<"call", "f", <<x>>, b>> : x \in S, b \in BOOLEAN} \cup {<<"call", "f", <<x, V("z")>>, FALSE>> : x \in S}
  \cup {<<"cond", W(x), V("y"), W(x)>> : x \in S}
  \cup {<<"bin", "+", W(x), V("y")>> : x \in S} \cup {<<"bin", "<=", V("y"), W(x)>> : x \in S} \cup {<<"un", "!", W(x)>> : x \in S}
  \cup {<<"tuple", <<x, x>>>> : x \in S} \cup {<<"obj", <<<<"id", "k", x>>, <<"e", K(x), V("y")>>, <<"e", Str, x>>>>>> : x \in S}
  \cup {<<"tmpl", <<<<"i", x>>>>>> : x \in S} \cup {<<"tmpl", <<<<"s", "t">>, <<"i", x>>>>>> : x \in S}
  \cup {<<"tmpl", <<<<"i", x>>, <<"s", "t">>>>>> : x \in S} \cup {<<"tmpl", <<<<"tif", x, "t", "u">>, <<"s", "t">>>>>> : x \in S}
  \cup {<<"fort", "", "v", x, x, b, x>> : x \in S, b \in BOOLEAN} \cup {<<"foro", "k", "v", x, x, x, b>> : x \in S, b \in BOOLEAN}
E1 == Over(A0)
E2 == IF Deep THEN Over(E1) ELSE {}
Exprs == A0 \cup E1 \cup E2 \cup {<<"here", <<<<"s", "t">>, <<"i", x>>>>>> : x \in A0}
At_(n, e) == <<"a", n, e>>
L1 == <<TRUE, "l">>
L2 == <<FALSE, "m">>
Bodies(e) ==
  {<<At_("a", e)>>, <<<<"b", "t", <<L1, L2>>, "lines", <<At_("a", e)>>>>>>} \cup
  (IF e[1] = "here" THEN {} ELSE {<<<<"b", "t", <<>>, "line", <<At_("a", e)>>>>>>}) \cup
  (IF e \in E2 THEN {} ELSE
   {<<At_("a", V("x")), <<"b", "t", <<L2>>, "lines", <<At_("a", e), <<"b", "u", <<L1>>, "empty", <<>>>>, <<"b", "u", <<>>, "lines", <<At_("b", e)>>>>>>>>, <<"b", "v", <<L1>>, "lines", <<>>>>>>})
RECURSIVE Here(_)
Here(it) == IF it[1] = "a" THEN it[3][1] = "here" ELSE \E x \in 1..Len(it[5]) : Here(it[5][x])
VARIABLES items, fill
vars == <<items, fill>>
Init == /\ items \in UNION {Bodies(e) : e \in Exprs}
        \* a blank after the end marker would belong to the heredoc
        /\ fill \in {<<>>} \cup (IF \E x \in 1..Len(items) : Here(items[x]) THEN {} ELSE {[j \in 1..60 |-> " "]})
Next == UNCHANGED vars
Pl == Placed(items, fill)
\* lookups change only where a construct starts or ends
Looked(pl, tops, p) == LET a == At(pl.nodes, p) IN <<a.blocks, a.attr, a.expr, Context(items, tops, p)>>
EmitCase ==
  LET pl == TLCEval(Pl) tops == TLCEval(Tops(pl.nodes))
      ed == TLCEval({p \in 0..Len(pl.text) : p = 0 \/ \E x \in 1..Len(pl.nodes) : (pl.nodes[x][1] \in {"Block", "Attribute"} \/ IsExpr(pl.nodes[x])) /\ p \in {pl.nodes[x][2], pl.nodes[x][3]}})
      at == TLCEval([p \in ed |-> Looked(pl, tops, p)])
      prev(p) == CHOOSE q \in ed : q < p /\ \A r \in ed : r < p => r <= q
      ch == {p \in ed : p = 0 \/ at[prev(p)] # at[p]}
  IN CSVWrite("%1$s", <<ToJson([items |-> items, fill |-> [j \in 1..pl.slot |-> IF j <= Len(fill) THEN fill[j] ELSE ""], text |-> pl.text, nodes |-> pl.nodes,
     ats |-> {<<p, at[p]>> : p \in ch}])>>, IOEnv.OUT)
\* constructs nest: two ranges are apart or one holds the other
Nested ==
  LET ns == TLCEval(Pl.nodes) IN
  \A x \in 1..Len(ns), y \in 1..Len(ns) : x < y =>
     \/ ns[x][3] <= ns[y][2] \/ ns[y][3] <= ns[x][2]
     \/ (ns[y][2] <= ns[x][2] /\ ns[x][3] <= ns[y][3])
\* whatever is found holds the position and lies within what is around it
Found ==
  LET pl == TLCEval(Pl) ns == pl.nodes IN
  \A p \in 0..Len(pl.text) : LET a == At(ns, p) IN
     /\ Len(a.attr) <= 1
     /\ (p > 0 /\ ~ \E x \in 1..Len(ns) : p \in {ns[x][2], ns[x][3]}) => At(ns, p - 1) = a
     /\ \A j \in 1..(Len(a.blocks) - 1) : a.blocks[j] < a.blocks[j + 1]
     /\ a.expr # <<>> => a.attr # <<>> /\ a.attr[1] <= a.expr[1][1]
=============================================================================
