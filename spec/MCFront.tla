------------------------------ MODULE MCFront ------------------------------
(***************************************************************************)
(* All texts made of up to MaxLen fragments between a head and a tail, with *)
(* their tree and their value in one scope, or their rejection.             *)
(***************************************************************************)
EXTENDS Front, Json, IOUtils, CSV
CONSTANTS Mode, Pool, MaxLen

RECURSIVE Chars(_)
Chars(s) == IF s = "" THEN <<>> ELSE <<SubSeq(s, 1, 1)>> \o Chars(SubSeq(s, 2, Len(s)))
Q == "\""
Heads ==
  CASE Pool \in {"lit", "esc", "strip", "nest"} /\ Mode # "bare" -> {Q}
    [] Pool \in {"doc", "docx", "docstrip"} -> {"<<E\n", "<<-E\n"}
    [] OTHER -> {""}
Tails ==
  CASE Pool \in {"doc", "docx"} -> {"\nE\n", "\n  E\n"}
    [] Pool = "docstrip" -> {"\nE\n"}
    [] Pool \in {"esc", "strip"} /\ Mode # "bare" -> {Q}
    [] OTHER -> {""}
Frags ==
  CASE Pool = "lit" -> {Q, "\\", "n", "$", "%", "{", "}", "a", " "}
    [] Pool = "esc" -> {"\\u", "\\U", "\\", "0041", "0000", "00e9", "d800", "ff", "a", "\\n", "$", "{"}
    [] Pool = "strip" -> {" ", "x", "\\n", "${", "${~", "a", "}", "~}"}
    [] Pool = "nest" -> {Q, "${", "}", "a", "{", "x=", "$$", "~}"}
    [] Pool = "ctl" -> {"%{if t}", "%{~ else ~}", "%{else}", "%{ endif ~}", "%{~ for v in l }", "%{endfor}", "${a}", " x\n "}
    [] Pool = "ctlerr" -> {"%{", "if", "else", "endif", "for", "in", ",", "a", "}", " "}
    [] Pool = "doc" -> {" ", "\t", "a", "\n", "E", "${a}", "\\n"}
    [] Pool = "docx" -> {"  ", " a", "\n", "\r\n", "E", "E a", "$${", "${a}", "\n\n"}
    [] Pool = "docstrip" -> {"  ", "x", "\n", "${a ~}", "${~ a}", "%{if t}", "%{endif ~}"}
    [] Pool = "mix" -> {"a", "=", "1", Q, "${", "}", "{", "\n", "[", "]", "<<E\n", "E\n"}
    [] Pool = "any" -> {"a", "1", Q, "$", "{", "}", "\n", "[", "*", ".", "#", "(", "=", " ", "\\", "<ff>"}

VARIABLES head, tail, frags
Init == head \in Heads /\ tail \in Tails /\ frags = <<>>
Next == Len(frags) < MaxLen /\ (\E f \in Frags : frags' = Append(frags, f)) /\ UNCHANGED <<head, tail>>

FragChars(f) == IF f = "<ff>" THEN <<f>> ELSE Chars(f)
S == Chars(head) \o Flat([i \in 1..Len(frags) |-> FragChars(frags[i])]) \o Chars(tail)
Scope == << [a |-> Str(" A"), t |-> BoolV(TRUE), x |-> NumI(1), l |-> <<"tuple", <<Str("p"), Str("q ")>>>>] >>
R == FrontEnd(S, Mode)
Want == IF R[1] = "ok" THEN (IF Mode = "body" THEN <<"ok", R[2]>> ELSE <<"ok", R[2], Outcome(R[2], Scope)>>) ELSE <<R[1]>>
EmitCase == IF R[1] = "any" THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([chars |-> S, mode |-> Mode, ctx |-> Scope, want |-> Want])>>, IOEnv.OUT)
=============================================================================
