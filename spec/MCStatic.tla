------------------------------ MODULE MCStatic ------------------------------
(* All texts of up to MaxLen fragments as reference paths and expressions.   *)
EXTENDS Static, Json, IOUtils, CSV
CONSTANTS Pool, MaxLen
RECURSIVE Chars(_)
Chars(s) == IF s = "" THEN <<>> ELSE <<SubSeq(s, 1, 1)>> \o Chars(SubSeq(s, 2, Len(s)))
Heads == IF Pool \in {"steps", "keys"} THEN {"a"} ELSE {""}
Frags ==
  CASE Pool = "steps" -> {".b", ".", "[0]", "[\"k\"]", "[", "]", "0", "k", "*", " ", "\n", "(", ")"}
    [] Pool = "keys" -> {"[", "]", "\"", "k", "1", "0.5", "-", "${", "}", "true", "null", "\\n", "$", ".b", "#\n"}
    [] Pool = "forms" -> {"a", "b", "true", "null", ".b", "[0]", "(", ")", "[", "]", "{", "}", "=", ",", "...", "\"", "f"}
VARIABLES head, frags
Init == head \in Heads /\ frags = <<>>
Next == Len(frags) < MaxLen /\ (\E f \in Frags : frags' = Append(frags, f)) /\ UNCHANGED head
S == Chars(head) \o Flat([i \in 1..Len(frags) |-> Chars(frags[i])])
Obj == <<"obj", [b |-> <<"tuple", <<Str("p"), Str("q")>>>>, k |-> <<"map", Number, [k |-> NumI(1), b |-> NumI(2)]>>]>>
Frames == << [b |-> Obj, true |-> NumI(7)], [a |-> Obj, k |-> <<"unk", <<"dyn">>>>], [a |-> NumI(1), b |-> NumI(2)] >>
W == TextSeen(S, Frames)
Same == Agree(S, Frames)
EmitCase == IF W.st = "any" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([chars |-> S, ctx |-> Frames, want |-> W])>>, IOEnv.OUT)
=============================================================================
