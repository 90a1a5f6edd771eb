------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The native syntax grammar over tokens, as a recogniser that also yields *)
(* the tree. A token is <<text>>; names, numbers and quoted strings are    *)
(* single tokens, "\n" is a newline, "#" a line comment (ends its line),   *)
(* "/**/" an inline comment. <<"TPL", tree>> and <<"DOC", tree>> are whole *)
(* quoted templates and heredocs, <<"BAD">> is something never valid.      *)
(*                                                                         *)
(* A result is <<TRUE, tree, next>> or <<FALSE, p>> where p is the first   *)
(* token after which no continuation can be valid (Len + 1 if the text     *)
(* merely ended too early).                                                *)
(*                                                                         *)
(* nl says whether newlines are significant: brackets and parentheses make *)
(* them insignificant, object braces make them separators again.           *)
(***************************************************************************)
EXTENDS Cty

NLs == {"\n", "#"}
Inline == "/**/"
EOF == "<eof>"

Numbers == {"0", "1", "2", "0.5", "2.5"}
Strings == {"\"s\"", "\"\"", "\"k\""}
Puncts == {"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "!", "?", ":", ".", ",", "=",
           "(", ")", "[", "]", "{", "}", "...", "=>"}
Special == Numbers \cup Strings \cup Puncts \cup NLs \cup {Inline, EOF, "TPL", "DOC", "BAD"}
IsIdent(t) == t \notin Special
StrOf(t) == SubSeq(t, 2, Len(t) - 1)

Levels == << {"||"}, {"&&"}, {"==", "!="}, {"<", "<=", ">", ">="}, {"+", "-"}, {"*", "/", "%"} >>

RECURSIVE Pos(_, _, _)
\* index of the next significant token at or after i
Pos(T, i, nl) ==
  IF i > Len(T) THEN Len(T) + 1
  ELSE IF T[i][1] = Inline \/ (T[i][1] \in NLs /\ ~nl) THEN Pos(T, i + 1, nl) ELSE i
At(T, i, nl) == LET p == Pos(T, i, nl) IN IF p > Len(T) THEN EOF ELSE T[p][1]
After(T, i, nl) == Pos(T, i, nl) + 1
Bad(T, i, nl) == <<FALSE, Pos(T, i, nl)>>

Lit(v) == <<"lit", v>>

RECURSIVE Expr(_, _, _), BinLevel(_, _, _, _), BinRest(_, _, _, _, _), WithTrav(_, _, _), Trav(_, _, _, _), AttrSplat(_, _, _, _),
          Term(_, _, _), Items(_, _, _), Args(_, _, _), ObjItems(_, _, _)

Expr(T, i, nl) ==
  LET c == BinLevel(T, i, nl, 1) IN
  IF ~c[1] \/ At(T, c[3], nl) # "?" THEN c
  ELSE LET a == Expr(T, After(T, c[3], nl), nl) IN
       IF ~a[1] THEN a
       ELSE IF At(T, a[3], nl) # ":" THEN Bad(T, a[3], nl)
       ELSE LET b == Expr(T, After(T, a[3], nl), nl) IN
            IF ~b[1] THEN b ELSE <<TRUE, <<"cond", c[2], a[2], b[2]>>, b[3]>>

BinLevel(T, i, nl, lv) ==
  IF lv > Len(Levels) THEN WithTrav(T, i, nl)
  ELSE LET l == BinLevel(T, i, nl, lv + 1) IN
       IF ~l[1] THEN l ELSE BinRest(T, l[3], nl, lv, l[2])
BinRest(T, i, nl, lv, lhs) ==
  LET op == At(T, i, nl) IN
  IF op \notin Levels[lv] THEN <<TRUE, lhs, i>>
  ELSE LET r == BinLevel(T, After(T, i, nl), nl, lv + 1) IN
       IF ~r[1] THEN r ELSE BinRest(T, r[3], nl, lv, <<"bin", op, lhs, r[2]>>)

WithTrav(T, i, nl) == LET t == Term(T, i, nl) IN IF ~t[1] THEN t ELSE Trav(T, t[3], nl, t[2])

Trav(T, i, nl, from) ==
  LET t == At(T, i, nl) j == After(T, i, nl) IN
  CASE t = "." ->
         LET n == At(T, j, nl) k == After(T, j, nl) IN
         IF n = "*" THEN LET s == AttrSplat(T, k, nl, <<"item">>) IN
                         IF ~s[1] THEN s ELSE Trav(T, s[3], nl, <<"splat", from, s[2]>>)
         ELSE IF n = "0.5" \/ n = "2.5" THEN Bad(T, j, nl)
         ELSE IF n \in Numbers THEN Trav(T, k, nl, <<"idx", from, Lit(StrToNum(n)[2])>>)
         ELSE IF IsIdent(n) THEN Trav(T, k, nl, <<"attr", from, n>>)
         ELSE Bad(T, j, nl)
    [] t = "[" ->
         IF At(T, j, nl) = "*"
         THEN LET k == After(T, j, nl) IN
              IF At(T, k, nl) # "]" THEN Bad(T, k, nl)
              ELSE LET e == Trav(T, After(T, k, nl), nl, <<"item">>) IN
                   IF ~e[1] THEN e ELSE <<TRUE, <<"splat", from, e[2]>>, e[3]>>
         ELSE LET x == Expr(T, j, FALSE) IN
              IF ~x[1] THEN x
              ELSE IF At(T, x[3], FALSE) # "]" THEN Bad(T, x[3], FALSE)
              ELSE Trav(T, After(T, x[3], FALSE), nl, <<"idx", from, x[2]>>)
    [] OTHER -> <<TRUE, from, i>>

\* names and whole-number steps directly after ".*" apply to each element
AttrSplat(T, i, nl, each) ==
  IF At(T, i, nl) # "." THEN <<TRUE, each, i>>
  ELSE LET j == After(T, i, nl) n == At(T, j, nl) k == After(T, j, nl) IN
       IF n = "0.5" \/ n = "2.5" THEN Bad(T, j, nl)
       ELSE IF n \in Numbers THEN AttrSplat(T, k, nl, <<"idx", each, Lit(StrToNum(n)[2])>>)
       ELSE IF IsIdent(n) THEN AttrSplat(T, k, nl, <<"attr", each, n>>)
       ELSE Bad(T, j, nl)

Args(T, i, acc) ==
  IF At(T, i, FALSE) = ")" THEN <<TRUE, <<acc, FALSE>>, After(T, i, FALSE)>>
  ELSE LET x == Expr(T, i, FALSE) IN
       IF ~x[1] THEN x
       ELSE LET s == At(T, x[3], FALSE) j == After(T, x[3], FALSE) a2 == Append(acc, x[2]) IN
            CASE s = ")" -> <<TRUE, <<a2, FALSE>>, j>>
              [] s = "..." -> IF At(T, j, FALSE) = ")" THEN <<TRUE, <<a2, TRUE>>, After(T, j, FALSE)>> ELSE Bad(T, j, FALSE)
              [] s = "," -> Args(T, j, a2)
              [] OTHER -> Bad(T, x[3], FALSE)

Items(T, i, acc) ==
  IF At(T, i, FALSE) = "]" THEN <<TRUE, <<"tuple", acc>>, After(T, i, FALSE)>>
  ELSE LET x == Expr(T, i, FALSE) IN
       IF ~x[1] THEN x
       ELSE LET s == At(T, x[3], FALSE) j == After(T, x[3], FALSE) a2 == Append(acc, x[2]) IN
            CASE s = "]" -> <<TRUE, <<"tuple", a2>>, j>>
              [] s = "," -> Items(T, j, a2)
              [] OTHER -> Bad(T, x[3], FALSE)

\* A bare name as a key is the literal name; anything else, also a name in
\* parentheses, is an expression.
Key(T, i, x) ==
  LET t == x[2] IN
  CASE At(T, i, TRUE) = "(" -> t
    [] t[1] = "var" -> <<"name", t[2]>>
    [] t = <<"lit", <<"null", <<"dyn">>>>>> -> <<"name", "null">>
    [] t = <<"lit", <<"bool", TRUE>>>> -> <<"name", "true">>
    [] t = <<"lit", <<"bool", FALSE>>>> -> <<"name", "false">>
    [] OTHER -> t
ObjItems(T, i, acc) ==
  LET t == At(T, i, TRUE) IN
  IF t \in NLs THEN ObjItems(T, After(T, i, TRUE), acc)
  ELSE IF t = "}" THEN <<TRUE, <<"obj", acc>>, After(T, i, TRUE)>>
  ELSE LET k == Expr(T, i, TRUE) IN
       IF ~k[1] THEN k
       ELSE IF At(T, k[3], TRUE) \notin {"=", ":"} THEN Bad(T, k[3], TRUE)
       ELSE LET v == Expr(T, After(T, k[3], TRUE), TRUE) IN
            IF ~v[1] THEN v
            ELSE LET s == At(T, v[3], TRUE) j == After(T, v[3], TRUE) a2 == Append(acc, <<Key(T, i, k), v[2]>>) IN
                 CASE s = "}" -> <<TRUE, <<"obj", a2>>, j>>
                   [] s = "," \/ s \in NLs -> ObjItems(T, j, a2)
                   [] OTHER -> Bad(T, v[3], TRUE)

\* i points after the "for" keyword
For(T, i, closer) ==
  LET n1 == At(T, i, FALSE) i2 == After(T, i, FALSE) IN
  IF ~IsIdent(n1) THEN Bad(T, i, FALSE)
  ELSE LET two == At(T, i2, FALSE) = ","
           i3 == IF two THEN After(T, i2, FALSE) ELSE i2
           n2 == At(T, i3, FALSE)
           i4 == IF two THEN After(T, i3, FALSE) ELSE i2
       IN
       IF two /\ ~IsIdent(n2) THEN Bad(T, i3, FALSE)
       ELSE IF At(T, i4, FALSE) # "in" THEN Bad(T, i4, FALSE)
       ELSE LET c == Expr(T, After(T, i4, FALSE), FALSE) IN
            IF ~c[1] THEN c
            ELSE IF At(T, c[3], FALSE) # ":" THEN Bad(T, c[3], FALSE)
            ELSE LET a == Expr(T, After(T, c[3], FALSE), FALSE) IN
                 IF ~a[1] THEN a
                 ELSE LET arrow == At(T, a[3], FALSE) = "=>"
                          b == IF arrow THEN Expr(T, After(T, a[3], FALSE), FALSE) ELSE a
                      IN
                      IF ~b[1] THEN b
                      ELSE IF closer = "]" /\ arrow THEN Bad(T, a[3], FALSE)
                      ELSE IF closer = "}" /\ ~arrow THEN Bad(T, a[3], FALSE)
                      ELSE LET grp == At(T, b[3], FALSE) = "..."
                               i5 == IF grp THEN After(T, b[3], FALSE) ELSE b[3]
                               cnd == At(T, i5, FALSE) = "if"
                               f == IF cnd THEN Expr(T, After(T, i5, FALSE), FALSE) ELSE <<TRUE, <<>>, i5>>
                           IN
                           IF grp /\ closer = "]" THEN Bad(T, b[3], FALSE)
                           ELSE IF ~f[1] THEN f
                           ELSE IF At(T, f[3], FALSE) # closer THEN Bad(T, f[3], FALSE)
                           ELSE <<TRUE, <<"for", IF two THEN n1 ELSE "", IF two THEN n2 ELSE n1, c[2],
                                          IF arrow THEN a[2] ELSE <<>>, b[2], f[2], grp>>, After(T, f[3], FALSE)>>

Term(T, i, nl) ==
  LET t == At(T, i, nl) j == After(T, i, nl) IN
  CASE t = "(" -> LET x == Expr(T, j, FALSE) IN
                  IF ~x[1] THEN x
                  ELSE IF At(T, x[3], FALSE) # ")" THEN Bad(T, x[3], FALSE)
                  ELSE <<TRUE, x[2], After(T, x[3], FALSE)>>
    [] t \in Numbers -> <<TRUE, Lit(StrToNum(t)[2]), j>>
    [] t \in Strings -> <<TRUE, Lit(Str(StrOf(t))), j>>
    [] t \in {"TPL", "DOC"} -> <<TRUE, T[Pos(T, i, nl)][2], j>>
    [] t \in {"-", "!"} -> LET x == WithTrav(T, j, nl) IN IF ~x[1] THEN x ELSE <<TRUE, <<"un", t, x[2]>>, x[3]>>
    [] t = "[" -> IF At(T, j, FALSE) = "for" THEN For(T, After(T, j, FALSE), "]") ELSE Items(T, j, <<>>)
    [] t = "{" -> IF At(T, j, FALSE) = "for" THEN For(T, After(T, j, FALSE), "}") ELSE ObjItems(T, j, <<>>)
    [] IsIdent(t) ->
         IF At(T, j, nl) = "(" THEN LET a == Args(T, After(T, j, nl), <<>>) IN
                                    IF ~a[1] THEN a ELSE <<TRUE, <<"call", t, a[2][1], a[2][2]>>, a[3]>>
         ELSE IF t \in {"true", "false"} THEN <<TRUE, Lit(BoolV(t = "true")), j>>
         ELSE IF t = "null" THEN <<TRUE, Lit(DynNull), j>>
         ELSE <<TRUE, <<"var", t>>, j>>
    [] OTHER -> Bad(T, i, nl)

\* A whole text as one expression; newlines are never significant at its top.
WholeExpr(T) ==
  LET x == Expr(T, 1, FALSE) IN
  IF ~x[1] THEN x ELSE IF At(T, x[3], FALSE) # EOF THEN Bad(T, x[3], FALSE) ELSE x

-----------------------------------------------------------------------------
(* Structure: a body is <<arguments, blocks>>, each in source order.        *)
RECURSIVE BodyP(_, _, _, _, _), Labels(_, _, _)

Names(as) == {as[k][1] : k \in 1..Len(as)}
Labels(T, i, acc) ==
  LET t == At(T, i, TRUE) j == After(T, i, TRUE) IN
  IF t = "{" THEN <<TRUE, acc, j>>
  ELSE IF t \in Strings THEN Labels(T, j, Append(acc, StrOf(t)))
  ELSE IF t = "TPL" /\ T[Pos(T, i, TRUE)][2][1] = "lit" THEN Labels(T, j, Append(acc, T[Pos(T, i, TRUE)][2][2][2]))
  ELSE IF IsIdent(t) THEN Labels(T, j, Append(acc, t))
  ELSE Bad(T, i, TRUE)

\* the content of a block, up to and including its closing brace
Content(T, i) ==
  IF At(T, i, TRUE) \in NLs \cup {EOF, "}"} THEN BodyP(T, i, "}", <<>>, <<>>)
  ELSE LET n == At(T, i, TRUE) j == After(T, i, TRUE) IN
       IF ~IsIdent(n) THEN Bad(T, i, TRUE)
       ELSE IF At(T, j, TRUE) # "=" THEN Bad(T, j, TRUE)
       ELSE LET x == Expr(T, After(T, j, TRUE), TRUE) IN
            IF ~x[1] THEN x
            ELSE IF At(T, x[3], TRUE) # "}" THEN Bad(T, x[3], TRUE)
            ELSE <<TRUE, <<<<<<n, x[2]>>>>, <<>>>>, After(T, x[3], TRUE)>>

BodyP(T, i, end, as, bs) ==
  LET t == At(T, i, TRUE) j == After(T, i, TRUE) IN
  IF t = end THEN <<TRUE, <<as, bs>>, j>>
  ELSE IF t \in NLs THEN BodyP(T, j, end, as, bs)
  ELSE IF ~IsIdent(t) THEN Bad(T, i, TRUE)
  ELSE IF At(T, j, TRUE) = "="
  THEN LET x == Expr(T, After(T, j, TRUE), TRUE) IN
       IF ~x[1] THEN x
       ELSE IF t \in Names(as) THEN Bad(T, i, TRUE)
       ELSE LET e == At(T, x[3], TRUE) IN
            IF e \in NLs THEN BodyP(T, After(T, x[3], TRUE), end, Append(as, <<t, x[2]>>), bs)
            ELSE IF e = EOF THEN (IF end = EOF THEN <<TRUE, <<Append(as, <<t, x[2]>>), bs>>, x[3]>> ELSE Bad(T, x[3], TRUE))
            ELSE Bad(T, x[3], TRUE)
  ELSE LET l == Labels(T, j, <<>>) IN
       IF ~l[1] THEN l
       ELSE LET c == Content(T, l[3]) IN
            IF ~c[1] THEN c
            ELSE LET e == At(T, c[3], TRUE)
                     b2 == Append(bs, <<t, l[2], c[2]>>)
                 IN
                 IF e \in NLs THEN BodyP(T, After(T, c[3], TRUE), end, as, b2)
                 ELSE IF e = EOF THEN (IF end = EOF THEN <<TRUE, <<as, b2>>, c[3]>> ELSE Bad(T, c[3], TRUE))
                 ELSE Bad(T, c[3], TRUE)

WholeBody(T) == BodyP(T, 1, EOF, <<>>, <<>>)

ParseT(mode, T) == IF mode = "expr" THEN WholeExpr(T) ELSE WholeBody(T)
Parse(mode, S) == ParseT(mode, [i \in 1..Len(S) |-> <<S[i]>>])
=============================================================================
