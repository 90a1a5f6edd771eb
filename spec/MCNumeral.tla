----------------------------- MODULE MCNumeral -----------------------------
(***************************************************************************)
(* Every pair of small numerals.                                           *)
(*   Ordered: of two numbers one is smaller or both are equal, and equal   *)
(*   numbers have the same text.                                           *)
(*   Again: the text of a number denotes the number.                       *)
(***************************************************************************)
EXTENDS Numeral, Json, IOUtils, CSV
CONSTANT Wide

VARIABLES a, b, done
vars == <<a, b, done>>

Signs == {<<>>, <<"-">>}
Wholes == {<<"0">>, <<"1">>, <<"1", "0">>, <<"2">>} \cup IF Wide THEN {<<"1", "0", "0">>, <<"9">>, <<"1", "2">>} ELSE {}
Fracs == {<<>>, <<".", "0">>, <<".", "1">>, <<".", "0", "1">>, <<".", "1", "0">>} \cup IF Wide THEN {<<".", "9", "9">>} ELSE {}
Exps == {<<>>, <<"e", "1">>, <<"E", "+", "1">>, <<"e", "-", "1">>, <<"e", "0">>, <<"E", "-", "0", "2">>}
Numerals == TLCEval({s \o w \o f \o e : s \in Signs, w \in Wholes, f \in Fracs, e \in Exps})

Init == a \in Numerals /\ b \in Numerals /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>

EmitCase == done => LET x == NumOf(a) y == NumOf(b) IN
            CSVWrite("%1$s", <<ToJson([a |-> a, b |-> b, cmp |-> CmpNum(x, y), text |-> TextOf(x)])>>, IOEnv.OUT)
Ordered == ~done => LET x == NumOf(a) y == NumOf(b) IN
           CmpNum(x, y) = -CmpNum(y, x) /\ (CmpNum(x, y) = 0 <=> x = y) /\ (x = y <=> TextOf(x) = TextOf(y))
Again == ~done => NumOf(TextOf(NumOf(a))) = NumOf(a)
=============================================================================
