----------------------------- MODULE MCJsonExpr -----------------------------
(* JSON values over a pool of strings, as expressions in one scope.          *)
EXTENDS Static, Json, IOUtils, CSV
CONSTANTS Size
RECURSIVE Chars(_)
Chars(s) == IF s = "" THEN <<>> ELSE <<SubSeq(s, 1, 1)>> \o Chars(SubSeq(s, 2, Len(s)))
Words == {"", "x", "1", "a", "${a}", "${n}", "x${a}", "${u}", "${z}", "${l}", "$${a}", "%{if t}y%{endif}", "${", "a.b", "a[0]", "o.k", "${o.k}", "id(a)", "${id(a)}",
          "${q}", "true", " a", "\\n", "\"", "%{for v in l}${v}${a}%{endfor}", "${l.*}", "a b", "${a}${z}"}
Keys == {"x", "y", "1", "${a}", "${u}", "${z}", "${n}", "${l}", "${", "a.b", "x${u}", "$${a}", "k\n", "id(a)"}
Small == {<<"s", Chars("${a}")>>, <<"s", Chars("${u}")>>, <<"s", Chars("${o.k}")>>, <<"s", Chars("x")>>, <<"s", Chars("${")>>, <<"n", NumI(1)>>, <<"z">>}
Leaves == {<<"s", Chars(w)>> : w \in Words} \cup {<<"n", NumI(1)>>, <<"n", <<"num", -5, 2>>>>, <<"n", NumI(0)>>, <<"t", TRUE>>, <<"t", FALSE>>, <<"z">>}
Props(V) == {<<Chars(k), v>> : k \in Keys, v \in V}
Coll(V, W) == {<<"a", <<>>>>, <<"o", <<>>>>} \cup {<<"a", <<v>>>> : v \in V} \cup {<<"a", <<v, w>>>> : v \in V, w \in W}
              \cup {<<"o", <<p>>>> : p \in Props(V)} \cup {<<"o", <<p, q>>>> : p \in Props(W), q \in Props(W)}
Nested == {<<"a", <<<<"o", <<p>>>>>>>> : p \in Props(Small)} \cup {<<"o", <<<<Chars("x"), c>>, p>>>> : c \in {<<"a", <<v>>>> : v \in Small}, p \in Props({<<"z">>})}
Scope == << [a |-> Str("x"), n |-> NumI(1), u |-> <<"unk", String>>, z |-> <<"null", String>>, t |-> BoolV(TRUE)],
            [l |-> <<"list", String, <<Str("p"), Str("q")>>>>, o |-> <<"obj", [k |-> Str("v")]>>, a |-> Str("hidden")] >>
VARIABLES node, done
Init == node \in Leaves \cup Coll(Leaves, IF Size = 1 THEN {<<"s", Chars("${a}")>>, <<"z">>} ELSE Small) \cup Nested /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED node
\* what is reported is enough: evaluating with only the reported names changes nothing
Roots == {p[1] : p \in JRefs(node)}
Cut == [i \in 1..Len(Scope) |-> [x \in DOMAIN Scope[i] \cap Roots |-> Scope[i][x]]]
Suffices == done => JVal(node, Scope, FALSE) = JVal(node, Cut, FALSE)
EmitCase == done => IF JOpen(node) THEN CSVWrite("%1$s", <<ToJson([node |-> node, ctx |-> Scope, want |-> JSeen(node, Scope)])>>, IOEnv.OUT) ELSE TRUE
=============================================================================
