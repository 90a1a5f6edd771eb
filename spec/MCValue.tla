------------------------------- MODULE MCValue ------------------------------
(* Values and reference paths written as source and read back.              *)
EXTENDS Static, Json, IOUtils, CSV
CONSTANTS Pool, MaxLen
W == INSTANCE Write
Alphabet ==
  CASE Pool = "esc" -> {"a", " ", "$", "%", "{", "}", "~", "\"", "\\", "\n", "u"}
    [] Pool = "uni" -> {"a", "<e2>", "<zh>", "<emo>", "<pre>", "<zwj>", "<nul>", "<bom>", "<08>", "<tag>", "$", "{", "\r", "\t", "0"}
    [] OTHER -> {}
Keys == {"a", "for", "a b", "0", "null", "true", "if", "in", "${a}", "", "a-b", "-a", "<e2>", "a.b", "%{", "\n", "\\", "_a"}
Leaves == {Str("x"), NumI(0), NumI(12), NumI(-1), <<"num", 5, 2>>, <<"num", -1, 4>>, BoolV(TRUE), BoolV(FALSE), DynNull, <<"null", String>>, <<"null", <<"list", String>>>>}
Coll(X) ==
  {<<"tuple", <<>>>>, <<"list", String, <<>>>>, <<"set", Number, <<>>>>, <<"map", String, NoFn>>, <<"obj", NoFn>>}
  \cup {<<"tuple", <<x>>>> : x \in X} \cup {<<"tuple", <<x, y>>>> : x \in X, y \in Leaves}
  \cup {<<"obj", [k |-> x]>> : x \in X} \cup {<<"obj", (k :> x)>> : k \in Keys, x \in {Str("v"), DynNull, <<"tuple", <<NumI(1), NumI(2)>>>>}}
  \cup {<<"obj", (k :> NumI(1)) @@ (m :> NumI(2))>> : k \in Keys, m \in {"a", "for", "b"}}
  \cup {<<"map", Number, (k :> NumI(1)) @@ (m :> NumI(2))>> : k \in Keys, m \in {"a", "for", "b"}}
  \cup {<<"list", String, <<Str("p"), <<"null", String>>, Str("p")>>>>, <<"set", Number, <<NumI(-1), NumI(0), <<"num", 5, 2>>>>>>, <<"set", Bool, <<BoolV(FALSE), BoolV(TRUE)>>>>}
Deep == LET c == Coll(Leaves) IN c \cup {<<"tuple", <<x, NumI(1)>>>> : x \in c} \cup {<<"obj", [a |-> x, b |-> Str("q")]>> : x \in c}
StepsOf == {<<"a", "b">>, <<"a", "for">>, <<"a", "true">>, <<"a", "a-b">>, <<"i", NumI(0)>>, <<"i", NumI(12)>>, <<"i", Str("k")>>, <<"i", Str("")>>, <<"i", Str("${a}")>>, <<"i", Str("q\"\\")>>, <<"i", Str("a b")>>}
VARIABLES cs, v, path
Init == CASE Pool \in {"esc", "uni"} -> cs = <<>> /\ v = <<>> /\ path = <<>>
          [] Pool = "struct" -> cs = <<>> /\ v \in Deep \cup Leaves /\ path = <<>>
          [] Pool = "path" -> cs = <<>> /\ v = <<>> /\ \E r \in {"a", "for", "if", "<e2>", "a-b"} : path = <<r, <<>>>>
Next == IF Pool = "struct" THEN FALSE
        ELSE IF Pool = "path" THEN Len(path[2]) < MaxLen /\ (\E s \in StepsOf : path' = <<path[1], Append(path[2], s)>>) /\ UNCHANGED <<cs, v>>
        ELSE Len(cs) < MaxLen /\ (\E c \in Alphabet : cs' = Append(cs, c)) /\ UNCHANGED <<v, path>>
Val == IF v # <<>> THEN v ELSE Str(W!Concat(cs))
Source(ts) == W!Split(W!Concat(ts))
\* what is written reads back as what was meant
ReadsBack ==
  IF Pool = "path" THEN LET p == PathText(Source(W!FlatExpr(W!RefExpr(path)))) IN p[1] # "any" => p = <<"ok", path>>
  ELSE LET f == FrontEnd(Source(W!ValToks(Val)), "expr") IN
       f[1] # "any" => f[1] = "ok" /\ Outcome(f[2], <<>>) \in {<<"ok", W!Meant(Val)>>, <<"any">>}
EmitCase ==
  CSVWrite("%1$s", <<ToJson(IF Pool = "path" THEN [kind |-> "path", path |-> path] ELSE [kind |-> "val", v |-> Val, want |-> W!Meant(Val)])>>, IOEnv.OUT)
=============================================================================
