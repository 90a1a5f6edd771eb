------------------------------- MODULE Front -------------------------------
(***************************************************************************)
(* The whole native front end: characters to tokens (Scan), templates cut   *)
(* out of the token stream and given a tree, the rest by Grammar. The tree  *)
(* can then be evaluated by Expr.                                           *)
(*                                                                          *)
(* Template trees: <<"lit",Str>> if all text; <<"wrap",e>> for exactly one  *)
(* interpolation; else <<"tmpl",parts>> with parts <<"s",text>>, <<"i",e>>. *)
(* An if directive is <<"i",<<"cond",c,t,f>>>>, a for directive             *)
(* <<"i",<<"join",<<"for",...>>>>>>.                                        *)
(*                                                                          *)
(* Status: "err" (must be rejected), "ok", "any" (not specified).           *)
(***************************************************************************)
EXTENDS Grammar
L == INSTANCE Scan
E == INSTANCE Expr

Spaces == {" ", "\t", "\n", "\r"}
RECURSIVE CutL(_), CutR(_), Flat(_), Text(_)
CutL(cs) == IF cs # <<>> /\ Head(cs) \in Spaces THEN CutL(Tail(cs)) ELSE cs
CutR(cs) == IF cs # <<>> /\ cs[Len(cs)] \in Spaces THEN CutR(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
\* values are normalised: a letter and its accent become one letter
Text(cs) == IF cs = <<>> THEN "" ELSE (IF Head(cs) = "<e1>" THEN "<e2>" ELSE Head(cs)) \o Text(Tail(cs))
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

-----------------------------------------------------------------------------
(* Literal text. Result <<status, characters>>.                             *)
Hex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
\* the code points the model knows by name
Code(h) ==
  CASE h \in {"0041", "00000041"} -> <<"ok", <<"A">>>>
    [] h \in {"0061", "00000061"} -> <<"ok", <<"a">>>>
    [] h \in {"0020", "00000020"} -> <<"ok", <<" ">>>>
    [] h \in {"000a", "000A", "0000000a"} -> <<"ok", <<"\n">>>>
    [] h \in {"0024", "00000024"} -> <<"ok", <<"$">>>>
    [] h \in {"00e9", "00E9", "000000e9"} -> <<"ok", <<"<e2>">>>>
    [] h \in {"4e16", "4E16", "00004e16"} -> <<"ok", <<"<zh>">>>>
    [] h = "0000" -> <<"ok", <<"<nul>">>>> [] h = "0008" -> <<"ok", <<"<08>">>>> [] h = "200d" -> <<"ok", <<"<zwj>">>>> [] h = "0600" -> <<"ok", <<"<pre>">>>>
    [] h = "000e0001" -> <<"ok", <<"<tag>">>>>
    [] h \in {"d800", "D800", "dfff", "0000d800", "00110000", "ffffffff", "ffff0041", "80000041"} -> <<"err", <<>>>>
    [] OTHER -> <<"any", <<>>>>
RECURSIVE HexEnd(_, _, _), Dec(_, _, _, _)
HexEnd(S, i, n) == IF n > 0 /\ i <= Len(S) /\ S[i] \in Hex THEN HexEnd(S, i + 1, n - 1) ELSE i
Worse(a, b) == IF a = "err" \/ b = "err" THEN "err" ELSE IF a = "any" \/ b = "any" THEN "any" ELSE "ok"
Dec(S, i, j, q) ==  \* characters i..j-1; q: backslashes are escapes
  IF i >= j THEN <<"ok", <<>>>>
  ELSE LET c == S[i]
           d == IF i + 1 < j THEN S[i + 1] ELSE ""
           then(cs, k) == LET r == Dec(S, k, j, q) IN <<r[1], cs \o r[2]>>
           err == <<"err", <<>>>>
       IN
       IF c = "\\" /\ q THEN
         CASE d = "n" -> then(<<"\n">>, i + 2) [] d = "r" -> then(<<"\r">>, i + 2) [] d = "t" -> then(<<"\t">>, i + 2)
           [] d = "\"" -> then(<<"\"">>, i + 2) [] d = "\\" -> then(<<"\\">>, i + 2)
           [] d \in {"u", "U"} ->
                LET n == IF d = "u" THEN 4 ELSE 8
                    e == HexEnd(S, i + 2, n)
                    k == Code(L!Join(S, i + 2, e))
                    r == then(k[2], e)
                IN IF e # i + 2 + n \/ e > j THEN err ELSE <<Worse(k[1], r[1]), r[2]>>
           [] OTHER -> err
       ELSE IF c \in {"$", "%"} /\ d = c /\ i + 2 < j /\ S[i + 2] = "{" THEN then(<<c, "{">>, i + 3)
       ELSE then(<<c>>, i + 1)

-----------------------------------------------------------------------------
(* Flushing: remove the smallest indentation of all lines from all lines.   *)
(* Parts of a heredoc keep to lines: a part <<"s",chars>> ends its line iff  *)
(* its last character is a newline. Blank lines neither count nor change.   *)
EndsLine(p) == p[1] = "s" /\ p[2] # <<>> /\ p[2][Len(p[2])] = "\n"
Indent(cs) == Len(cs) - Len(CutL(cs))
StartsLine(ps, i) == i = 1 \/ EndsLine(ps[i - 1])
Blank(p) == EndsLine(p) /\ CutL(p[2]) = <<>>
Flush(ps) ==
  LET starts == {i \in 1..Len(ps) : StartsLine(ps, i) /\ ~Blank(ps[i])}
      ind(i) == IF ps[i][1] = "s" THEN Indent(ps[i][2]) ELSE 0
      m == IF starts = {} THEN 0 ELSE CHOOSE n \in {ind(i) : i \in starts} : \A i \in starts : n <= ind(i)
  IN [i \in 1..Len(ps) |-> IF i \in starts /\ ps[i][1] = "s" THEN <<"s", SubSeq(ps[i][2], m + 1, Len(ps[i][2]))>> ELSE ps[i]]

-----------------------------------------------------------------------------
(* Directives to structure. Build(ps, i, ends) reads up to a part named in  *)
(* ends (or the end of all parts if ends is empty): <<ok, parts, index>>.   *)
RECURSIVE Build(_, _, _, _)
AddS(acc, cs) ==
  IF cs = <<>> THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)][1] = "s" THEN [acc EXCEPT ![Len(acc)] = <<"s", @[2] \o Text(cs)>>]
  ELSE Append(acc, <<"s", Text(cs)>>)
TreeOf(parts) == IF parts = <<>> THEN Lit(Str(""))
                 ELSE IF Len(parts) = 1 /\ parts[1][1] = "s" THEN Lit(Str(parts[1][2]))
                 ELSE <<"tmpl", parts>>
Build(ps, i, ends, acc) ==
  IF i > Len(ps) THEN <<ends = {}, acc, i>>
  ELSE LET p == ps[i] IN
       CASE p[1] \in ends -> <<TRUE, acc, i>>
         [] p[1] = "s" -> Build(ps, i + 1, ends, AddS(acc, p[2]))
         [] p[1] = "i" -> Build(ps, i + 1, ends, Append(acc, p))
         [] p[1] = "if" ->
              LET t == Build(ps, i + 1, {"else", "endif"}, <<>>)
                  alt == t[1] /\ ps[t[3]][1] = "else"
                  f == IF alt THEN Build(ps, t[3] + 1, {"endif"}, <<>>) ELSE <<t[1], <<>>, t[3]>>
              IN IF ~f[1] THEN f
                 ELSE Build(ps, f[3] + 1, ends, Append(acc, <<"i", <<"cond", p[2], TreeOf(t[2]), TreeOf(f[2])>>>>))
         [] p[1] = "for" ->
              LET b == Build(ps, i + 1, {"endfor"}, <<>>) IN
              IF ~b[1] THEN b
              ELSE Build(ps, b[3] + 1, ends, Append(acc, <<"i", <<"join", <<"for", p[2], p[3], p[4], <<>>, TreeOf(b[2]), <<>>, FALSE>>>>>>))
         [] OTHER -> <<FALSE, acc, i>>

Template(ps) ==
  LET r == Build(ps, 1, {}, <<>>) IN
  IF ~r[1] THEN <<"err", <<>>>>
  ELSE <<"ok", IF Len(ps) = 1 /\ ps[1][1] = "i" THEN <<"wrap", ps[1][2]>> ELSE TreeOf(r[2])>>

\* the inside of "%{ }", as a part
Directive(g) ==
  LET kw == At(g, 1, FALSE)
      j == After(g, 1, FALSE)
      bare(x) == IF At(g, j, FALSE) = EOF THEN <<"ok", x>> ELSE <<"err", <<>>>>
      whole(x) == x[1] /\ At(g, x[3], FALSE) = EOF
      n1 == At(g, j, FALSE)
      j2 == After(g, j, FALSE)
      two == At(g, j2, FALSE) = ","
      j3 == IF two THEN After(g, j2, FALSE) ELSE j
      n2 == At(g, j3, FALSE)
      j4 == IF two THEN After(g, j3, FALSE) ELSE j2
  IN
  CASE kw = "if" -> LET x == Expr(g, j, FALSE) IN IF whole(x) THEN <<"ok", <<"if", x[2]>>>> ELSE <<"err", <<>>>>
    [] kw \in {"else", "endif", "endfor"} -> bare(<<kw>>)
    [] kw = "for" ->
         IF ~IsIdent(n1) \/ ~IsIdent(n2) \/ At(g, j4, FALSE) # "in" THEN <<"err", <<>>>>
         ELSE LET x == Expr(g, After(g, j4, FALSE), FALSE) IN
              IF whole(x) THEN <<"ok", <<"for", IF two THEN n1 ELSE "", n2, x[2]>>>> ELSE <<"err", <<>>>>
    [] OTHER -> <<"err", <<>>>>

-----------------------------------------------------------------------------
(* Token stream with templates folded. ts: tokens of the scanner, adjacent  *)
(* pieces of a literal joined but kept apart at line ends.                  *)
JoinPieces(S, ts, new) ==
  IF new = <<>> THEN ts
  ELSE IF ts # <<>> /\ L!Last(ts)[1] = new[1][1] /\ new[1][1] \in {"qlit", "slit"} /\ S[new[1][2] - 1] # "\n"
       THEN L!Front(ts) \o <<<<new[1][1], L!Last(ts)[2], new[1][3]>>>> \o Tail(new)
       ELSE ts \o new
RECURSIVE Lex(_, _, _)
Lex(S, st, ts) == IF st.p > Len(S) THEN Append(ts, <<"eof", Len(S) + 1, Len(S) + 1>>)
                  ELSE LET r == L!Step(S, st) IN Lex(S, r[2], JoinPieces(S, ts, r[1]))

RECURSIVE Conv(_, _, _, _, _), Parts(_, _, _, _, _, _, _)
\* <<status, tokens, index of the stopping token>>; stop: at the first sequence end
Conv(S, ts, k, stop, acc) ==
  LET t == ts[k]
      tx == L!Join(S, t[2], t[3])
      add(x) == Conv(S, ts, k + 1, stop, Append(acc, <<x>>))
      bad == <<"err", acc, Len(ts)>>
  IN
  CASE t[1] = "eof" -> <<"ok", acc, k>>
    [] t[1] = "seqend" -> IF stop THEN <<"ok", acc, k>> ELSE bad
    [] t[1] = "ident" -> add(tx)
    [] t[1] = "number" -> IF tx \in Numbers THEN add(tx) ELSE LET r == add("0") IN <<Worse("any", r[1]), r[2], r[3]>>
    [] t[1] = "comment" -> add(IF S[t[3] - 1] = "\n" THEN "#" ELSE Inline)
    [] t[1] = "newline" -> add("\n")
    [] t[1] \in {"oquote", "oheredoc"} ->
         LET doc == t[1] = "oheredoc"
             r == Parts(S, ts, k + 1, IF doc THEN "cheredoc" ELSE "cquote", <<>>, FALSE, "ok")
             x == Template(IF doc /\ S[t[2] + 2] = "-" THEN Flush(r[2]) ELSE r[2])
         IN IF r[1] = "err" \/ x[1] = "err" THEN bad
            ELSE LET c == Conv(S, ts, r[3] + 1, stop, Append(acc, <<IF doc THEN "DOC" ELSE "TPL", x[2]>>)) IN
                 <<Worse(r[1], c[1]), c[2], c[3]>>
    [] OTHER -> IF tx \in Puncts THEN add(tx) ELSE bad

\* the parts of a template up to the token type end: <<status, parts, index>>;
\* ltrim: the previous sequence ended in a strip marker
Parts(S, ts, k, end, acc, ltrim, st) ==
  LET t == ts[k] bad == <<"err", acc, Len(ts)>> IN
  CASE t[1] = end -> <<st, acc, k>>
    [] t[1] \in {"qlit", "slit"} ->
         LET d == Dec(S, t[2], t[3], t[1] = "qlit")
             cs == IF ltrim THEN CutL(d[2]) ELSE d[2]
         IN IF d[1] = "err" THEN bad ELSE Parts(S, ts, k + 1, end, Append(acc, <<"s", cs>>), FALSE, Worse(st, d[1]))
    [] t[1] \in {"interp", "control"} ->
         LET strip == t[3] - t[2] = 3
             acc1 == IF strip /\ acc # <<>> /\ acc[Len(acc)][1] = "s"
                     THEN [acc EXCEPT ![Len(acc)] = <<"s", CutR(@[2])>>] ELSE acc
             g == Conv(S, ts, k + 1, TRUE, <<>>)
             x == IF t[1] = "interp"
                  THEN LET e == WholeExpr(g[2]) IN IF e[1] THEN <<"ok", <<"i", e[2]>>>> ELSE <<"err", <<>>>>
                  ELSE Directive(g[2])
         IN IF g[1] = "err" \/ ts[g[3]][1] = "eof" THEN bad
            ELSE IF g[1] = "any" THEN Parts(S, ts, g[3] + 1, end, Append(acc1, <<"s", <<>>>>), FALSE, "any")
            ELSE IF x[1] = "err" THEN bad
            ELSE Parts(S, ts, g[3] + 1, end, Append(acc1, x[2]), S[ts[g[3]][2]] = "~", st)
    [] OTHER -> bad

\* Text to tree: <<status, tree>>
FrontEnd(S, mode) ==
  LET ts == Lex(S, L!Start(S, IF mode = "bare" THEN "bare" ELSE "main"), <<>>) IN
  IF L!Abstain(S, ts) THEN <<"any", <<>>>>
  ELSE IF \E k \in 1..Len(S) - 1 : S[k] \in {"$", "%"} /\ S[k + 1] = "\r" THEN <<"any", <<>>>>
  ELSE IF mode = "bare"
  THEN LET r == Parts(S, ts, 1, "eof", <<>>, FALSE, "ok") x == Template(r[2]) IN
       IF r[1] = "err" THEN <<"err", <<>>>> ELSE IF r[1] = "any" THEN <<"any", <<>>>> ELSE x
  ELSE LET g == Conv(S, ts, 1, FALSE, <<>>) x == ParseT(mode, g[2]) IN
       IF g[1] # "ok" THEN <<g[1], <<>>>> ELSE IF x[1] THEN <<"ok", x[2]>> ELSE <<"err", <<>>>>

-----------------------------------------------------------------------------
(* Trees to the expressions of module Expr.                                 *)
RECURSIVE Ast(_), AstSeq(_), AstParts(_)
AstSeq(ts) == [i \in 1..Len(ts) |-> Ast(ts[i])]
AstParts(t) ==
  IF t[1] = "lit" THEN <<<<"s", t[2][2]>>>>
  ELSE [i \in 1..Len(t[2]) |->
         LET p == t[2][i] IN
         IF p[1] = "i" /\ p[2][1] = "join" THEN <<"tfor", p[2][2][2], p[2][2][3], Ast(p[2][2][4]), AstParts(p[2][2][6])>>
         ELSE IF p[1] = "i" THEN <<"i", Ast(p[2])>> ELSE p]
Ast(t) ==
  CASE t[1] \in {"lit", "var", "item"} -> t
    [] t[1] = "attr" -> <<"attr", Ast(t[2]), t[3]>>
    [] t[1] = "idx" -> <<"idx", Ast(t[2]), Ast(t[3])>>
    [] t[1] = "splat" -> <<"splat", Ast(t[2]), "full", Ast(t[3])>>
    [] t[1] = "call" -> <<"call", t[2], AstSeq(t[3]), t[4]>>
    [] t[1] = "cond" -> <<"cond", Ast(t[2]), Ast(t[3]), Ast(t[4])>>
    [] t[1] = "bin" -> <<"bin", t[2], Ast(t[3]), Ast(t[4])>>
    [] t[1] = "un" -> <<"un", t[2], Ast(t[3])>>
    [] t[1] = "tuple" -> <<"tuple", AstSeq(t[2])>>
    [] t[1] = "obj" -> <<"obj", [i \in 1..Len(t[2]) |->
         IF t[2][i][1][1] = "name" THEN <<"id", t[2][i][1][2], Ast(t[2][i][2])>> ELSE <<"e", Ast(t[2][i][1]), Ast(t[2][i][2])>>]>>
    [] t[1] = "for" ->
         LET hc == t[7] # <<>> cnd == IF hc THEN Ast(t[7]) ELSE <<>> IN
         IF t[5] = <<>> THEN <<"fort", t[2], t[3], Ast(t[4]), Ast(t[6]), hc, cnd>>
         ELSE <<"foro", t[2], t[3], Ast(t[4]), Ast(t[5]), Ast(t[6]), hc, cnd, t[8]>>
    [] t[1] = "wrap" -> <<"wrap", Ast(t[2])>>
    [] t[1] = "tmpl" -> <<"parts", AstParts(t)>>

\* what a scope (sequence of frames) makes of an accepted text
Outcome(tree, ctx) == LET r == E!Eval(Ast(tree), ctx) IN
                      IF r[2] = "any" THEN <<"any">> ELSE IF r[2] = "err" THEN <<"err">> ELSE <<"ok", r[1]>>
=============================================================================
