------------------------------- MODULE MCWrite ------------------------------
(* All edit histories of bounded length over a pool of files.               *)
EXTENDS Write, TLC, Json, IOUtils, CSV
CONSTANTS Pool, MaxOps
Nl == <<"raw", <<"\n">>>>
R(ns) == <<"r", [i \in 1..Len(ns) |-> <<"n", IF i = 1 THEN "" ELSE ".", ns[i]>>]>>
T(s) == <<"t", s>>
At(n, e) == <<"attr", n, <<>>, e, <<>>>>
Blk(t, b) == <<"block", <<t, "{">>, b, <<"}">>, TRUE>>
Files ==
  { <<>>,
    <<At("x", <<T("1")>>)>>,
    <<At("x", <<R(<<"a", "b">>), T("+"), R(<<"a">>)>>), <<"raw", <<"# c\n">>>>>>,
    <<<<"raw", <<"# l\n">>>>, <<"attr", "x", <<"(">>, <<R(<<"a", "b", "c">>)>>, <<")">>>>, <<"raw", <<"/* t */", "\n">>>>, At("y", <<T("[for"), T("v"), T("in"), R(<<"a">>), T(":"), T("v.b]")>>), Nl>>,
    <<Blk("b", <<>>), Nl, Blk("b", <<At("x", <<R(<<"a", "b">>)>>)>>), Nl>>,
    <<<<"block", <<"b", "\"l\"", "{">>, <<<<"raw", <<"# c\n">>>>, At("x", <<T("\"p${"), R(<<"a">>), T("}q\"")>>), Nl, Blk("c", <<Nl>>), Nl>>, <<"}">>, TRUE>>>>,
    <<Blk("b", <<<<"raw", <<"/* i */">>>>, Nl, At("x", <<T("<<E\n$${\nE")>>), Nl>>), <<"raw", <<"// end\n">>>>>>,
    <<Blk("b", <<<<"raw", <<"/* i */">>>>>>), <<"raw", <<"/* j */", "\n">>>>, At("y", <<<<"r", <<<<"n", "", "a">>, <<"x", "[0]">>, <<"n", ".", "b">>>>>>>>), Nl>> }
Vals == IF Pool = "wide" THEN {NumI(2), <<"tuple", <<Str("s"), BoolV(TRUE)>>>>} ELSE {NumI(2)}
Refs == IF Pool = "wide" THEN {<<"a", <<<<"a", "b">>, <<"i", Str("k")>>>>>>} ELSE {<<"a", <<<<"a", "b">>>>>>}
OpsOn(b) == UNION {
  {<<"setv", p, n, v>> : n \in {"x", "y"}, v \in Vals} \cup {<<"setr", p, n, r>> : n \in {"x", "z"}, r \in Refs}
  \cup {<<"block", p, "n", <<"l">>>>, <<"clear", p>>, <<"raw", p, <<"# r\n">>>>}
  \cup {<<"rename", p, "x", s[1], s[2]>> : s \in {<<<<"a">>, <<"z">>>>, <<<<"a", "b">>, <<"p", "q">>>>}}
  \cup (IF Pool = "wide" THEN {<<"attach", p, "m", <<>>, "x", Str("${")>>, <<"nl", p>>, <<"rename", p, "y", <<"a">>, <<"z">>>>, <<"block", p, "b", <<>>>>} ELSE {})
  : p \in Paths(b, 2)}
VARIABLES file, ops, cur
Init == file \in Files /\ ops = <<>> /\ cur = file
Next == /\ Len(ops) < MaxOps
        /\ \E o \in OpsOn(cur) : Legal(cur, o) /\ ops' = Append(ops, o) /\ cur' = Edit(cur, o)
        /\ UNCHANGED file
Same == cur = EditAll(file, ops)
\* an argument is listed once, and every item begins on a line of its own
OneEach == \A p \in Paths(cur, 2) : LET b == Sub(cur, FALSE, p)[1] IN \A i \in 1..Len(b) : b[i][1] = "attr" => AttrAt(b, b[i][2]) = {i}
Lines == \A p \in Paths(cur, 2) :
  LET s == Sub(cur, FALSE, p) b == s[1] IN
  \A i \in 2..Len(b) : b[i][1] \in {"attr", "block"} => LET ts == FlatBody(SubSeq(b, 1, i - 1)) IN EndsLine(ts[Len(ts)]) \/ (s[2] /\ \A k \in 1..Len(ts) : IsComment(ts[k]))
EmitCase == CSVWrite("%1$s", <<ToJson([file |-> FlatBody(file), ops |-> ops, text |-> Text(cur), flat |-> FlatBody(cur), view |-> View(cur)])>>, IOEnv.OUT)
=============================================================================
