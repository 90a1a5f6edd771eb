-------------------------------- MODULE MCLoad ------------------------------
(* All configurations of up to MaxLen fragments, with the arguments, blocks  *)
(* and references a loaded file must list.                                   *)
EXTENDS Load, Json, IOUtils, CSV
CONSTANTS Pool, MaxLen
RECURSIVE Chars(_)
Chars(s) == IF s = "" THEN <<>> ELSE <<SubSeq(s, 1, 1)>> \o Chars(SubSeq(s, 2, Len(s)))
Frags ==
  CASE Pool = "lines" -> {"x = a.b\n", "y=1", " \n", "# c\n", "/* d */", "b {", "}", "b \"l\" {\n", "}\n", "\tz = [ a ,\n c ]\n", "b {}\n"}
    [] Pool = "expr" -> {"a", ".b", "[0]", "[\"k\"]", ".0", ".*", "(", ")", " + ", "\"${", "}\"", "[", "]", ", ", "[for a in ", " : ", "\n", " # c\n", "-", "1", "{", "}", "=", "<<E\n", "E\n", "f("}
Heads == IF Pool = "expr" THEN {"x  = "} ELSE {"", "BOM"}
VARIABLES head, frags
Init == head \in Heads /\ frags = <<>>
Next == Len(frags) < MaxLen /\ (\E f \in Frags : frags' = Append(frags, f)) /\ UNCHANGED head
S == (IF head = "BOM" THEN <<"BOM">> ELSE Chars(head)) \o Flat([i \in 1..Len(frags) |-> Chars(frags[i])])
EmitCase == LET l == Loaded(S) IN IF l[1] # "ok" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([chars |-> S, view |-> l[2]])>>, IOEnv.OUT)
=============================================================================
