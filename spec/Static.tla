------------------------------- MODULE Static -------------------------------
(***************************************************************************)
(* Static analysis of expressions: reference paths, keywords, calls, lists  *)
(* and maps; reference paths written as text; and JSON values used as       *)
(* expressions. A path is <<root, steps>> with steps <<"a", name>> and      *)
(* <<"i", key>>; <<>> stands for "not a path".                              *)
(***************************************************************************)
EXTENDS Front
J == INSTANCE JsonText
RF == INSTANCE Refs

RECURSIVE TreePath(_)
TreePath(t) ==
  CASE t[1] = "var" -> <<t[2], <<>>>>
    [] t = <<"lit", <<"null", <<"dyn">>>>>> -> <<"null", <<>>>>
    [] t = <<"lit", <<"bool", TRUE>>>> -> <<"true", <<>>>>
    [] t = <<"lit", <<"bool", FALSE>>>> -> <<"false", <<>>>>
    [] t[1] = "attr" -> LET p == TreePath(t[2]) IN IF p = <<>> THEN <<>> ELSE <<p[1], Append(p[2], <<"a", t[3]>>)>>
    [] t[1] = "idx" /\ t[3][1] = "lit" -> LET p == TreePath(t[2]) IN IF p = <<>> THEN <<>> ELSE <<p[1], Append(p[2], <<"i", t[3][2]>>)>>
    [] OTHER -> <<>>
Keyword(p) == IF p # <<>> /\ p[2] = <<>> THEN p[1] ELSE ""
KeyPath(k) == IF k[1] = "name" THEN <<k[2], <<>>>> ELSE TreePath(k)
No == <<"no">>
\* the static analyses of a tree, each No where the expression has another form
Analyse(t) ==
  [path |-> TreePath(t), kw |-> Keyword(TreePath(t)),
   call |-> IF t[1] = "call" THEN <<"yes", t[2], [i \in 1..Len(t[3]) |-> TreePath(t[3][i])]>> ELSE No,
   list |-> IF t[1] = "tuple" THEN <<"yes", [i \in 1..Len(t[2]) |-> TreePath(t[2][i])]>> ELSE No,
   map |-> IF t[1] = "obj" THEN <<"yes", [i \in 1..Len(t[2]) |-> <<KeyPath(t[2][i][1]), TreePath(t[2][i][2])>>]>> ELSE No]

\* A path written as text: <<status, path>>
RECURSIVE Steps(_, _, _)
Steps(T, i, acc) ==
  LET t == At(T, i, FALSE) j == After(T, i, FALSE) n == At(T, j, FALSE) k == After(T, j, FALSE) IN
  CASE t = EOF -> <<TRUE, acc>>
    [] t = "." -> IF IsIdent(n) THEN Steps(T, k, Append(acc, <<"a", n>>)) ELSE <<FALSE, acc>>
    [] t = "[" -> IF At(T, k, FALSE) # "]" THEN <<FALSE, acc>>
                  ELSE LET m == After(T, k, FALSE) x == T[Pos(T, j, FALSE)] IN
                       IF n \in Numbers THEN Steps(T, m, Append(acc, <<"i", StrToNum(n)[2]>>))
                       ELSE IF x[1] = "TPL" /\ x[2][1] = "lit" THEN Steps(T, m, Append(acc, <<"i", x[2][2]>>))
                       ELSE <<FALSE, acc>>
    [] OTHER -> <<FALSE, acc>>
PathText(S) ==
  LET ts == Lex(S, L!Start(S, "main"), <<>>)
      g == Conv(S, ts, 1, FALSE, <<>>)
      r == IF IsIdent(At(g[2], 1, FALSE)) THEN Steps(g[2], After(g[2], 1, FALSE), <<>>) ELSE <<FALSE, <<>>>>
  IN IF L!Abstain(S, ts) THEN <<"any", <<>>>>
     ELSE IF g[1] # "ok" THEN <<g[1], <<>>>>
     ELSE IF r[1] THEN <<"ok", <<At(g[2], 1, FALSE), r[2]>>>> ELSE <<"err", <<>>>>

RECURSIVE Resolve(_, _)
Resolve(t, steps) ==
  IF steps = <<>> THEN t
  ELSE LET s == Head(steps) IN Resolve(IF s[1] = "a" THEN <<"attr", t, s[2]>> ELSE <<"idx", t, <<"lit", s[2]>>>>, Tail(steps))
Outc(r) == IF r[2] = "any" THEN <<"any">> ELSE IF r[2] = "err" THEN <<"err">> ELSE <<"ok", r[1]>>
PathValue(p, ctx) == Outc(E!Eval(Resolve(<<"var", p[1]>>, p[2]), ctx))

-----------------------------------------------------------------------------
(* JSON values as expressions. lit: no scope is given, strings are literal. *)
Join2(a, b) == IF a = "err" \/ b = "err" THEN "err" ELSE IF a = "any" \/ b = "any" THEN "any" ELSE "ok"
RECURSIVE JVal(_, _, _), JProps(_, _, _, _, _, _)
JStr(cs, ctx, lit) ==
  IF lit THEN <<Str(Text(cs)), "ok">>
  ELSE LET f == FrontEnd(cs, "bare") IN
       IF f[1] # "ok" THEN <<DynVal, f[1]>> ELSE E!Eval(Ast(f[2]), ctx)
JProps(ps, i, ctx, lit, acc, st) ==
  IF i > Len(ps) THEN <<acc, st>>
  ELSE LET k == JStr(ps[i][1], ctx, lit)
           v == JVal(ps[i][2], ctx, lit)
           s2 == Join2(st, Join2(k[2], v[2]))
           c == IF k[2] = "ok" THEN Convert(k[1], String) ELSE <<"any">>
       IN IF k[2] # "ok" THEN JProps(ps, i + 1, ctx, lit, acc, s2)
          ELSE IF c[1] # "ok" THEN JProps(ps, i + 1, ctx, lit, acc, Join2(s2, c[1]))
          ELSE IF c[2][1] = "null" THEN JProps(ps, i + 1, ctx, lit, acc, "err")
          ELSE IF c[2][1] = "unk" THEN JProps(ps, i + 1, ctx, lit, <<TRUE, acc[2]>>, s2)
          ELSE IF c[2][2] \in DOMAIN acc[2] THEN JProps(ps, i + 1, ctx, lit, acc, "err")
          ELSE JProps(ps, i + 1, ctx, lit, <<acc[1], acc[2] @@ (c[2][2] :> v[1])>>, s2)
JVal(n, ctx, lit) ==
  CASE n[1] = "s" -> JStr(n[2], ctx, lit)
    [] n[1] = "n" -> IF n[2] = <<"any">> THEN <<DynVal, "any">> ELSE <<n[2], "ok">>
    [] n[1] = "t" -> <<BoolV(n[2]), "ok">>
    [] n[1] = "z" -> <<DynNull, "ok">>
    [] n[1] = "a" -> LET vs == [i \in 1..Len(n[2]) |-> JVal(n[2][i], ctx, lit)] IN
                     <<<<"tuple", [i \in 1..Len(vs) |-> vs[i][1]]>>,
                       IF \E i \in 1..Len(vs) : vs[i][2] = "err" THEN "err" ELSE IF \E i \in 1..Len(vs) : vs[i][2] = "any" THEN "any" ELSE "ok">>
    [] n[1] = "o" -> LET r == JProps(n[2], 1, ctx, lit, <<FALSE, NoFn>>, "ok") IN
                     <<IF r[1][1] THEN DynVal ELSE <<"obj", r[1][2]>>, r[2]>>
RECURSIVE JRefs(_)
SRefs(cs) == LET f == FrontEnd(cs, "bare") IN IF f[1] = "ok" THEN RF!Refs(Ast(f[2]), {}) ELSE {}
JRefs(n) ==
  CASE n[1] = "s" -> SRefs(n[2])
    [] n[1] = "a" -> UNION {JRefs(n[2][i]) : i \in 1..Len(n[2])}
    [] n[1] = "o" -> UNION {SRefs(n[2][i][1]) \cup JRefs(n[2][i][2]) : i \in 1..Len(n[2])}
    [] OTHER -> {}
JPath(cs) == LET p == PathText(cs) IN IF p[1] = "ok" THEN p[2] ELSE <<>>
JNPath(n) == IF n[1] = "s" THEN JPath(n[2]) ELSE <<>>
JAnalyse(n) ==
  LET f == IF n[1] = "s" THEN FrontEnd(n[2], "expr") ELSE <<"err", <<>>>> IN
  [path |-> JNPath(n), kw |-> Keyword(JNPath(n)),
   call |-> IF f[1] = "ok" THEN Analyse(f[2]).call ELSE No,
   list |-> IF n[1] = "a" THEN <<"yes", [i \in 1..Len(n[2]) |-> JNPath(n[2][i])]>> ELSE No,
   map |-> IF n[1] = "o" THEN <<"yes", [i \in 1..Len(n[2]) |-> <<JPath(n[2][i][1]), JNPath(n[2][i][2])>>]>> ELSE No]
RECURSIVE JOpen(_)
\* nothing in the value is left open by the specification
JOpen(n) ==
  CASE n[1] = "s" -> FrontEnd(n[2], "bare")[1] # "any" /\ FrontEnd(n[2], "expr")[1] # "any" /\ PathText(n[2])[1] # "any"
    [] n[1] = "a" -> \A i \in 1..Len(n[2]) : JOpen(n[2][i])
    [] n[1] = "o" -> \A i \in 1..Len(n[2]) : FrontEnd(n[2][i][1], "bare")[1] # "any" /\ JOpen(n[2][i][2])
    [] OTHER -> TRUE
RECURSIVE SetSeq(_)
SetSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SetSeq(X \ {x})
JSeen(n, ctx) == [lit |-> Outc(JVal(n, ctx, TRUE)), val |-> Outc(JVal(n, ctx, FALSE)), vars |-> SetSeq(JRefs(n)), an |-> JAnalyse(n)]
\* everything observable about a text as a path and as an expression
TextSeen(S, ctx) ==
  LET p == PathText(S) f == FrontEnd(S, "expr") IN
  [st |-> IF p[1] = "any" \/ f[1] = "any" THEN "any" ELSE "ok",
   path |-> IF p[1] = "ok" THEN p[2] ELSE <<>>,
   pval |-> IF p[1] = "ok" THEN PathValue(p[2], ctx) ELSE <<"err">>,
   an |-> IF f[1] = "ok" THEN <<Analyse(f[2])>> ELSE <<>>,
   val |-> IF f[1] = "ok" THEN Outcome(f[2], ctx) ELSE <<"err">>]
\* A text accepted as a path means the same as an expression, unless its root
\* is one of the words that expressions read as literals.
Agree(S, ctx) ==
  LET p == PathText(S) f == FrontEnd(S, "expr") IN
  p[1] = "ok" => /\ f[1] = "ok" /\ TreePath(f[2]) = p[2]
                 /\ p[2][1] \notin {"true", "false", "null"} => Outcome(f[2], ctx) = PathValue(p[2], ctx)
=============================================================================
