-------------------------------- MODULE Write -------------------------------
(***************************************************************************)
(* A configuration file being edited. A body is a sequence of items:        *)
(*   <<"raw", texts>>                   newlines, comments, other tokens     *)
(*   <<"attr", name, pre, expr, post>>  pre/post: parentheses around all     *)
(*   <<"block", head, body, close, ab>> ab: the line of the opening brace    *)
(*                                      ends within the body                 *)
(* An expression is a sequence of <<"t", text>> and <<"r", steps>>, a        *)
(* reference whose steps are <<"n", dot, name>> or <<"x", text>>.            *)
(***************************************************************************)
EXTENDS Cty
RECURSIVE Concat(_), FlatBody(_), Flat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
StepText(s) == IF s[1] = "n" THEN s[2] \o s[3] ELSE s[2]
RefText(r) == Concat([i \in 1..Len(r) |-> StepText(r[i])])
PieceText(p) == IF p[1] = "t" THEN p[2] ELSE RefText(p[2])
FlatExpr(e) == [i \in 1..Len(e) |-> PieceText(e[i])]
FlatItem(it) ==
  CASE it[1] = "raw" -> it[2]
    [] it[1] = "attr" -> <<it[2], "=">> \o it[3] \o FlatExpr(it[4]) \o it[5]
    [] it[1] = "block" -> it[2] \o FlatBody(it[3]) \o it[4]
FlatBody(b) == Flat([i \in 1..Len(b) |-> FlatItem(b[i])])
Text(b) == Concat(FlatBody(b))
EndsLine(t) == t # "" /\ SubSeq(t, Len(t), Len(t)) = "\n" /\ (Len(t) = 1 \/ SubSeq(t, 1, 1) \in {"#", "/"})
IsComment(t) == Len(t) > 1 /\ SubSeq(t, 1, 1) \in {"#", "/"}

-----------------------------------------------------------------------------
(* Values and references as tokens.                                         *)
RECURSIVE Esc(_), ValToks(_), Sep(_, _), Split(_)
\* characters the model knows by name
Split(s) ==
  IF s = "" THEN <<>>
  ELSE LET n == IF SubSeq(s, 1, 1) # "<" THEN 1
                ELSE IF Len(s) >= 4 /\ SubSeq(s, 1, 4) \in {"<08>", "<e2>", "<zh>", "<e3>", "<ff>", "<0c>"} THEN 4
                ELSE IF Len(s) >= 5 /\ SubSeq(s, 1, 5) \in {"<emo>", "<pre>", "<zwj>", "<nul>", "<bom>", "<tag>"} THEN 5 ELSE 1
       IN <<SubSeq(s, 1, n)>> \o Split(SubSeq(s, n + 1, Len(s)))
Esc(cs) ==
  IF cs = <<>> THEN ""
  ELSE LET c == Head(cs) n == IF Len(cs) > 1 THEN cs[2] ELSE "" IN
       (CASE c = "\n" -> "\\n" [] c = "\r" -> "\\r" [] c = "\t" -> "\\t" [] c = "\"" -> "\\\"" [] c = "\\" -> "\\\\"
          [] c \in {"$", "%"} /\ n = "{" -> c \o c
          [] c = "<08>" -> "\\u0008" [] c = "<nul>" -> "\\u0000" [] c = "<zwj>" -> "\\u200d" [] c = "<pre>" -> "\\u0600" [] c = "<bom>" -> "\\ufeff" [] c = "<tag>" -> "\\U000e0001"
          [] OTHER -> c) \o Esc(Tail(cs))
Quote(s) == "\"" \o Esc(Split(s)) \o "\""
Sep(tss, i) == IF i > Len(tss) THEN <<>> ELSE tss[i] \o (IF i < Len(tss) THEN <<",">> ELSE <<>>) \o Sep(tss, i + 1)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN SubSeq("0123456789", n + 1, n + 1) ELSE Digits(n \div 10) \o SubSeq("0123456789", (n % 10) + 1, (n % 10) + 1)
NumText(p, q) == (IF p < 0 THEN "-" ELSE "") \o
                 LET a == IF p < 0 THEN -p ELSE p IN Digits(a \div q) \o (IF q = 1 THEN "" ELSE "." \o (CASE q = 2 -> "5" [] q = 4 /\ a % 4 = 1 -> "25" [] q = 4 /\ a % 4 = 3 -> "75"))
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "<e2>", "<zh>"}
Plain(k) == LET cs == Split(k) IN cs # <<>> /\ cs[1] \in Letters /\ \A i \in 2..Len(cs) : cs[i] \in Letters \cup {"_", "-", "0", "1"}
KeyToks(k) == IF Plain(k) /\ k # "for" THEN <<k>> ELSE <<Quote(k)>>
MapToks(f) == LET ks == SortStrs(DOMAIN f) IN [i \in 1..Len(ks) |-> KeyToks(ks[i]) \o <<"=">> \o ValToks(f[ks[i]])]
ValToks(v) ==
  CASE v[1] = "null" -> <<"null">>
    [] v[1] = "bool" -> <<IF v[2] THEN "true" ELSE "false">>
    [] v[1] = "num" -> <<NumText(v[2], v[3])>>
    [] v[1] = "str" -> <<Quote(v[2])>>
    [] v[1] = "tuple" -> <<"[">> \o Sep([i \in 1..Len(v[2]) |-> ValToks(v[2][i])], 1) \o <<"]">>
    [] v[1] \in {"list", "set"} -> <<"[">> \o Sep([i \in 1..Len(v[3]) |-> ValToks(v[3][i])], 1) \o <<"]">>
    [] v[1] = "obj" -> <<"{">> \o Sep(MapToks(v[2]), 1) \o <<"}">>
    [] v[1] = "map" -> <<"{">> \o Sep(MapToks(v[3]), 1) \o <<"}">>
\* the value the tokens of a value denote
RECURSIVE Meant(_)
Meant(v) ==
  CASE v[1] = "null" -> <<"null", <<"dyn">>>>
    [] v[1] = "tuple" -> <<"tuple", [i \in 1..Len(v[2]) |-> Meant(v[2][i])]>>
    [] v[1] \in {"list", "set"} -> <<"tuple", [i \in 1..Len(v[3]) |-> Meant(v[3][i])]>>
    [] v[1] = "obj" -> <<"obj", [k \in DOMAIN v[2] |-> Meant(v[2][k])]>>
    [] v[1] = "map" -> <<"obj", [k \in DOMAIN v[3] |-> Meant(v[3][k])]>>
    [] OTHER -> v
ValExpr(v) == LET ts == ValToks(v) IN [i \in 1..Len(ts) |-> <<"t", ts[i]>>]
\* a reference path (module Static) as an expression
RefExpr(p) == <<<<"r", <<<<"n", "", p[1]>>>> \o
                [i \in 1..Len(p[2]) |-> IF p[2][i][1] = "a" THEN <<"n", ".", p[2][i][2]>> ELSE <<"x", "[" \o Concat(ValToks(p[2][i][2])) \o "]">>]>>>>

-----------------------------------------------------------------------------
(* Edits. A path names a block by its index at each level.                  *)
BlockIdx(b) == {i \in 1..Len(b) : b[i][1] = "block"}
RECURSIVE NthIdx(_, _, _)
NthIdx(b, i, k) == IF b[i][1] = "block" THEN (IF k = 1 THEN i ELSE NthIdx(b, i + 1, k - 1)) ELSE NthIdx(b, i + 1, k)
AttrAt(b, n) == {i \in 1..Len(b) : b[i][1] = "attr" /\ b[i][2] = n}

\* ab: see above; FALSE for the file itself
StartLine(b, ab) ==
  LET ts == FlatBody(b)
      firsts == {i \in 1..Len(ts) : ~(IsComment(ts[i]) /\ ~EndsLine(ts[i]))}
      open == ab /\ (firsts = {} \/ ~EndsLine(ts[CHOOSE i \in firsts : \A j \in firsts : i <= j]))
      last == ts # <<>> /\ ~EndsLine(ts[Len(ts)])
  IN (IF open THEN <<<<"raw", <<"\n">>>>>> ELSE <<>>) \o b \o (IF last THEN <<<<"raw", <<"\n">>>>>> ELSE <<>>)
AddItem(b, ab, its) == StartLine(b, ab) \o its
NewAttr(n, e) == <<<<"attr", n, <<>>, e, <<>>>>, <<"raw", <<"\n">>>>>>
NewBlk(t, ls, body) == <<<<"block", <<t>> \o [i \in 1..Len(ls) |-> Quote(ls[i])] \o <<"{", "\n">>, body, <<"}", "\n">>, FALSE>>>>
SetAttr(b, ab, n, e) ==
  IF AttrAt(b, n) = {} THEN AddItem(b, ab, NewAttr(n, e))
  ELSE LET i == CHOOSE k \in AttrAt(b, n) : TRUE IN [b EXCEPT ![i] = <<"attr", n, b[i][3], e, b[i][5]>>]
Matches(r, s) == Len(r) >= Len(s) /\ \A i \in 1..Len(s) : r[i][1] = "n" /\ r[i][3] = s[i]
Renamed(e, s, t) == [i \in 1..Len(e) |->
  IF e[i][1] = "r" /\ Matches(e[i][2], s) THEN <<"r", [k \in 1..Len(e[i][2]) |-> IF k <= Len(s) THEN <<"n", e[i][2][k][2], t[k]>> ELSE e[i][2][k]]>> ELSE e[i]]
\* o: <<name, path, arguments...>>
EditHere(b, ab, o) ==
  CASE o[1] = "setv" -> SetAttr(b, ab, o[3], ValExpr(o[4]))
    [] o[1] = "setr" -> SetAttr(b, ab, o[3], RefExpr(o[4]))
    [] o[1] = "block" -> AddItem(b, ab, NewBlk(o[3], o[4], <<>>))
    [] o[1] = "attach" -> AddItem(b, ab, NewBlk(o[3], o[4], NewAttr(o[5], ValExpr(o[6]))))
    [] o[1] = "nl" -> Append(b, <<"raw", <<"\n">>>>)
    [] o[1] = "raw" -> Append(b, <<"raw", o[3]>>)
    [] o[1] = "clear" -> <<>>
    [] o[1] = "rename" -> IF AttrAt(b, o[3]) = {} THEN b
                          ELSE LET i == CHOOSE k \in AttrAt(b, o[3]) : TRUE IN [b EXCEPT ![i] = <<"attr", b[i][2], b[i][3], Renamed(b[i][4], o[4], o[5]), b[i][5]>>]
    [] o[1] = "read" -> b
RECURSIVE EditAt(_, _, _, _)
EditAt(b, ab, path, o) ==
  IF path = <<>> THEN EditHere(b, ab, o)
  ELSE LET i == NthIdx(b, 1, path[1]) IN
       [b EXCEPT ![i] = <<"block", @[2], EditAt(@[3], @[5], Tail(path), o), @[4], @[5]>>]
Edit(b, o) == EditAt(b, FALSE, o[2], o)
RECURSIVE EditAll(_, _)
EditAll(b, os) == IF os = <<>> THEN b ELSE EditAll(Edit(b, Head(os)), Tail(os))

RECURSIVE Sub(_, _, _), Paths(_, _)
Sub(b, ab, path) == IF path = <<>> THEN <<b, ab>> ELSE LET i == NthIdx(b, 1, path[1]) IN Sub(b[i][3], b[i][5], Tail(path))
Paths(b, d) == {<<>>} \cup (IF d = 0 THEN {} ELSE
  UNION {{<<k>> \o p : p \in Paths(b[NthIdx(b, 1, k)][3], d - 1)} : k \in 1..Cardinality(BlockIdx(b))})
\* raw tokens may follow only where a line has begun
OneLine(b, ab) == ab /\ b # <<>> /\ ~EndsLine(FlatBody(b)[1])
Legal(b, o) == o[1] \in {"nl", "raw"} => ~OneLine(Sub(b, FALSE, o[2])[1], Sub(b, FALSE, o[2])[2])

RECURSIVE SelectRefs(_)
SelectRefs(e) == IF e = <<>> THEN <<>> ELSE (IF Head(e)[1] = "r" THEN <<RefText(Head(e)[2])>> ELSE <<>>) \o SelectRefs(Tail(e))
\* what can be read back
RECURSIVE View(_)
View(b) ==
  LET names == {b[i][2] : i \in {k \in 1..Len(b) : b[k][1] = "attr"}}
      at(n) == b[CHOOSE k \in AttrAt(b, n) : TRUE]
      nb == Cardinality(BlockIdx(b))
  IN [attrs |-> [i \in 1..Cardinality(names) |-> LET n == SortStrs(names)[i] IN <<n, Concat(FlatExpr(at(n)[4])), SelectRefs(at(n)[4])>>],
      blocks |-> [k \in 1..nb |-> View(b[NthIdx(b, 1, k)][3])]]
=============================================================================
