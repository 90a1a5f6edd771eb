------------------------------ MODULE MCGrammar ------------------------------
(***************************************************************************)
(* All token sequences over an alphabet up to a length, except extensions  *)
(* of sequences that no continuation can make valid. Every one is emitted  *)
(* with its tree or its rejection.                                         *)
(*   Dead: a sequence that is rejected before its end stays rejected.      *)
(*   Layout: inline comments and, in expression mode, newlines at the top  *)
(*   make no difference.                                                   *)
(***************************************************************************)
EXTENDS Grammar, Json, IOUtils, CSV
CONSTANTS Mode, Pool, MaxLen
Q == "\"s\""
Alphabet ==
  CASE Pool = "ops" -> {"a", "1", "+", "-", "*", "==", "<", "&&", "||", "!", "?", ":", "(", ")"}
    [] Pool = "allops" -> {"a", "+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "(", ")"}
    [] Pool = "trav" -> {"a", ".", "[", "]", "*", "0", "0.5", Q, "(", ")", "\n", "-"}
    [] Pool = "coll" -> {"a", "1", "[", "]", "{", "}", ",", "=", ":", "(", ")", "...", "\n", "#", Inline}
    [] Pool = "for" -> {"x", "for", "in", "if", ",", ":", "=>", "...", "[", "]", "{", "}", "\n"}
    [] Pool = "forx" -> {"x", "in", "if", ",", ":", "=>", "...", "]", "}"}
    [] Pool = "lit" -> {"true", "null", "1", "2.5", Q, "\"\"", ".", "[", "]", "+", "a", "(", ")", "{", "}", "="}
    [] Pool = "body" -> {"a", "b", "=", "1", "{", "}", "\n", Q}
    [] Pool = "layout" -> {"a", "=", "1", "{", "}", "\n", "#", Inline, "(", ")", ","}
    [] Pool = "attr" -> {"a", "=", "+", "[", "]", "{", "}", "(", ")", "\n", "#", "?", ":"}
Starts ==
  CASE Pool = "forx" -> {<<"[", "for", "x", "in", "x", ":">>, <<"{", "for", "x", ",", "y", "in", "x", ":", "x", "=>">>, <<"{", "for", "x">>}
    [] Pool = "attr" -> {<<"a", "=">>}
    [] OTHER -> {<<>>}

VARIABLES toks
R == Parse(Mode, toks)
Alive == IF R[1] THEN TRUE ELSE R[2] > Len(toks)

Init == toks \in Starts
Next == /\ Len(toks) < MaxLen /\ Alive
        /\ \E t \in Alphabet : toks' = Append(toks, t)

Want == IF R[1] THEN <<"ok", R[2]>> ELSE <<"err">>
EmitCase == CSVWrite("%1$s", <<ToJson([mode |-> Mode, toks |-> toks, want |-> Want])>>, IOEnv.OUT)

Dead == ~Alive => \A t \in {"a", ")", "]", "}", "\n", "1", ":"} : ~Parse(Mode, Append(toks, t))[1]
RECURSIVE Drop(_, _)
Drop(T, S) == IF T = <<>> THEN <<>> ELSE (IF Head(T) \in S THEN <<>> ELSE <<Head(T)>>) \o Drop(Tail(T), S)
Layout == R[1] => /\ Parse(Mode, Drop(toks, {Inline})) [2] = R[2]
                  /\ Parse(Mode, <<Inline>> \o toks)[2] = R[2]
=============================================================================
