------------------------------ MODULE MCFormat ------------------------------
(* All token sequences over a pool, with their canonical layout.             *)
EXTENDS Format, TLC, Json, IOUtils, CSV
CONSTANTS Pool, MaxLen
K(kind, text) == <<<<kind, text>>>>
P(text) == K(text, text)
A == K("ident", "a")
NL == K("newline", "\n")
Frags ==
  CASE Pool = "lines" -> {A, K("ident", "bbb"), P("="), K("number", "1"), P("{"), P("}"), NL, K("comment", "# c\n"), K("comment", "/* x */")}
    [] Pool = "cells" -> {A \o P("=") \o K("number", "1"), K("ident", "bbb") \o P("="), A \o P("{"), P("}"), P("["), P("]"), NL, K("comment", "#\n"), K("comment", "/*\n*/"),
                          P("=") \o K("oheredoc", "<<E\n") \o K("slit", "x\n") \o K("cheredoc", "E") \o NL}
    [] Pool = "ops" -> {A, K("ident", "in"), K("number", "1"), P("-"), P("+"), P("!"), K("eqop", "=="), P("("), P(")"), P("["), P("]"), P("{"), P("}"), P("."), P(","), K("ellipsis", "..."), P("?"), P(":"), P("="), K("arrow", "=>")}
    [] Pool = "tmpl" -> {K("oquote", "\"") \o K("qlit", "x ") \o K("cquote", "\""), K("oquote", "\"") \o K("interp", "${"), K("seqend", "}") \o K("interp", "${"), K("seqend", "}") \o K("cquote", "\""),
                         K("seqend", "}") \o K("qlit", " y ") \o K("control", "%{"), A, P("{"), P("}"), P("-"), NL, K("oquote", "\"") \o K("cquote", "\"")}
Starts == IF Pool \in {"ops", "tmpl"} THEN {A \o P("=")} ELSE {<<>>}
VARIABLES s, n
Init == s \in Starts /\ n = 0
Next == n < MaxLen /\ (\E f \in Frags : s' = s \o f) /\ n' = n + 1
Last(x) == SubSeq(x, Len(x), Len(x))
Tok(t) == <<IF t[2] = "in" THEN "in" ELSE t[1], Len(t[2]), t[1] = "newline" \/ (t[1] = "comment" /\ Last(t[2]) = "\n")>>
T == [i \in 1..Len(s) |-> Tok(s[i])]
W == Layout(T)
\* nothing but the first token of a line is indented, and brackets of a valid nesting return to the left margin
NoTrailing == \A i \in 1..Len(T) : T[i][1] = "newline" => W[i] = 0
EmitCase == CSVWrite("%1$s", <<ToJson([toks |-> s, spaces |-> W])>>, IOEnv.OUT)
=============================================================================
