------------------------------- MODULE MCScan -------------------------------
(***************************************************************************)
(* All texts over an alphabet up to a length, with their tokens.           *)
(*   Tiles: tokens are in order and leave out nothing but spaces.          *)
(*   Prefix: scanning is left to right: cutting the text at a token         *)
(*   boundary of a balanced text keeps the tokens before it.                *)
(***************************************************************************)
EXTENDS Scan, Json, IOUtils, CSV
CONSTANTS Mode, Pool, MaxLen

Alphabet ==
  CASE Pool = "tmpl" -> {"\"", "$", "{", "}", "a", "\\", "~"}
    [] Pool = "ctl" -> {"\"", "%", "{", "}", "\n", "~", "$"}
    [] Pool = "doc" -> {"E", "a", " ", "\n", "\r", "$", "{", "}"}
    [] Pool = "doc2" -> {"E", "\n", "\"", "$", "{", "}", "<"}
    [] Pool = "ops" -> {"=", "!", ">", "<", "&", "|", ".", "/", "*", "-", "~", "}"}
    [] Pool = "num" -> {"1", ".", "e", "+", "-", "E", "a", "_", " "}
    [] Pool = "lines" -> {"#", "/", "*", "\n", "\r", "a", "\t", "<e2>", "<e1>"}
    [] Pool = "bytes" -> {"<e2>", "<zh>", "<emo>", "<ff>", "a", "\"", "\n", "#", "\\"}
    [] Pool = "ident" -> {"a", "BOM", "1", "-", "_", "<e2>", ".", " ", "<ff>"}
Starts ==
  CASE Pool = "doc" -> {<<"<", "<", "E", "\n">>, <<"<", "<", "-", "E", "\r", "\n">>}
    [] Pool = "doc2" -> {<<"<", "<", "E", "\n", "$", "{">>, <<"<", "<", "E", "\n", "$", "{", "<", "<", "E", "\n">>}
    [] Pool = "bytes" -> {<<>>, <<"BOM">>}
    [] OTHER -> {<<>>}

VARIABLES s, base
Init == s \in Starts /\ base = Len(s)
Next == Len(s) - base < MaxLen /\ UNCHANGED base /\ \E c \in Alphabet : s' = Append(s, c)

Ts == Tokens(s, Mode)
At0 == <<1, 1, 0>>
EmitCase == Abstain(s, Ts) \/ CSVWrite("%1$s", <<ToJson([chars |-> s, mode |-> Mode, start |-> At0, want |-> Located(s, Ts, 1, 1, At0)])>>, IOEnv.OUT)
Tiles == /\ Last(Ts) = <<"eof", Len(s) + 1, Len(s) + 1>>
         /\ \A k \in 1..(Len(Ts) - 1) : Ts[k][2] < Ts[k][3] /\ Ts[k][3] <= Ts[k + 1][2]
         /\ LET G == [k \in 1..Len(Ts) |-> (IF k = 1 THEN (IF C(s, 1) = "BOM" THEN 2 ELSE 1) ELSE Ts[k - 1][3])..(Ts[k][2] - 1)]
            IN \A k \in 1..Len(Ts) : \A j \in G[k] : s[j] \in Blank
=============================================================================
