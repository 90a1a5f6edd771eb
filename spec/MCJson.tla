------------------------------- MODULE MCJson -------------------------------
(***************************************************************************)
(* All JSON texts of up to MaxLen fragments between a head and a tail.      *)
(* Prune is sound: a text is extended only while some continuation of it    *)
(* could still be a document, and one step beyond.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
J == INSTANCE JsonText
CONSTANTS Pool, MaxLen
Q == "\""
RECURSIVE Chars(_), Flat(_)
Chars(s) == IF s = "" THEN <<>> ELSE <<SubSeq(s, 1, 1)>> \o Chars(SubSeq(s, 2, Len(s)))
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Names == {"<ff>", "<e2>", "<zh>", "<pre>", "BOM", "<nul>"}
FragChars(f) == IF f \in Names THEN <<f>> ELSE Chars(f)
Heads == CASE Pool \in {"struct", "root", "comma"} -> {""} [] Pool \in {"str", "esc"} -> {"{\"x\":\""} [] OTHER -> {"{\"x\":", "["}
Tails == CASE Pool \in {"struct", "root", "comma"} -> {""} [] Pool = "str" -> {"", "\"}"} [] Pool = "esc" -> {"\"}"} [] OTHER -> {"}", "]"}
Frags ==
  CASE Pool = "struct" -> {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1"}
    [] Pool = "comma" -> {"{", "}", "[", "]", ",", ":", "\"a\"", " ", "null"}
    [] Pool = "root" -> {"{}", "[]", " ", "\n", "\t", "\r", "1", "\"a\"", "true", ";", "BOM", "#", "=", "<ff>"}
    [] Pool = "num" -> {"-", "+", ".", "0", "1", "5", "e", "E"}
    [] Pool = "word" -> {"true", "false", "null", "t", "u", "n", "_", "N", "1", " ", "E"}
    [] Pool = "str" -> {Q, "\\", "n", "u", "/", "a", "$", "\n", "\t", "<e2>", "<pre>", "<ff>", "{", ","}
    [] Pool = "esc" -> {"\\u", "\\", "0041", "00e9", "4E16", "d800", "00", "a", "\\n", "\\b", "\\/", "\\x"}
VARIABLES head, tail, frags
Init == head \in Heads /\ tail \in Tails /\ frags = <<>>
Next == Len(frags) < MaxLen /\ (\E f \in Frags : frags' = Append(frags, f)) /\ UNCHANGED <<head, tail>>
S == Chars(head) \o Flat([i \in 1..Len(frags) |-> FragChars(frags[i])]) \o Chars(tail)
W == J!Seen(S)
\* a document followed by anything but spaces is not a document
Whole == J!Document(S)[1] = "ok" => \A f \in {"1", "}", ",", Q} : J!Document(Append(S, f))[1] = "err"
EmitCase == IF W[1] = "any" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([chars |-> S, want |-> W])>>, IOEnv.OUT)
=============================================================================
