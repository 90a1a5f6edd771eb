------------------------------ MODULE Numeral ------------------------------
(***************************************************************************)
(* Decimal numerals as sequences of characters and the numbers they denote.*)
(* A number is [neg, digs, exp]: 0.d1d2d3... times ten to the power exp,   *)
(* without leading and trailing zeros; zero has no digits.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

DigitChars == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitOf == TLCEval([c \in {DigitChars[k] : k \in 1..10} |-> (CHOOSE k \in 1..10 : DigitChars[k] = c) - 1])
IsDigit(c) == c \in DOMAIN DigitOf

\* position behind the digits that start at i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN DigitsEnd(t, i + 1) ELSE i
RECURSIVE IntOf(_, _)
IntOf(t, acc) == IF t = <<>> THEN acc ELSE IntOf(Tail(t), 10 * acc + DigitOf[t[1]])
RECURSIVE DropLead(_), DropTrail(_)
DropLead(d) == IF d # <<>> /\ d[1] = 0 THEN DropLead(Tail(d)) ELSE d
DropTrail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN DropTrail(SubSeq(d, 1, Len(d) - 1)) ELSE d

\* reads sign? digits (. digits)? ([eE] sign? digits)?
NumOf(t) ==
  LET neg == t # <<>> /\ t[1] = "-"
      i0 == IF neg THEN 2 ELSE 1
      i1 == DigitsEnd(t, i0)
      point == i1 <= Len(t) /\ t[i1] = "."
      i2 == IF point THEN DigitsEnd(t, i1 + 1) ELSE i1
      whole == SubSeq(t, i0, i1 - 1)
      frac == IF point THEN SubSeq(t, i1 + 1, i2 - 1) ELSE <<>>
      ex == i2 <= Len(t) /\ t[i2] \in {"e", "E"}
      sg == ex /\ t[i2 + 1] \in {"+", "-"}
      e == IF ex THEN IntOf(SubSeq(t, IF sg THEN i2 + 2 ELSE i2 + 1, Len(t)), 0) * (IF sg /\ t[i2 + 1] = "-" THEN -1 ELSE 1) ELSE 0
      all == whole \o frac
      ds == TLCEval([k \in 1..Len(all) |-> DigitOf[all[k]]])
      lead == TLCEval(DropLead(ds))
      digs == TLCEval(DropTrail(lead))
  IN IF digs = <<>> THEN [neg |-> FALSE, digs |-> <<>>, exp |-> 0]
     ELSE [neg |-> neg, digs |-> digs, exp |-> Len(whole) - (Len(ds) - Len(lead)) + e]

\* compares digits behind the same point; -1, 0, 1
RECURSIVE CmpDigits(_, _)
CmpDigits(a, b) ==
  IF a = <<>> THEN IF b = <<>> THEN 0 ELSE -1
  ELSE IF b = <<>> THEN 1
  ELSE IF a[1] # b[1] THEN IF a[1] < b[1] THEN -1 ELSE 1
  ELSE CmpDigits(Tail(a), Tail(b))
CmpAbs(a, b) ==
  IF a.digs = <<>> \/ b.digs = <<>> THEN (IF a.digs = b.digs THEN 0 ELSE IF a.digs = <<>> THEN -1 ELSE 1)
  ELSE IF a.exp # b.exp THEN (IF a.exp < b.exp THEN -1 ELSE 1)
  ELSE CmpDigits(a.digs, b.digs)
CmpNum(a, b) ==
  IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
  ELSE IF a.neg THEN CmpAbs(b, a) ELSE CmpAbs(a, b)

\* the plain decimal text of a number
Zeros(n) == [k \in 1..n |-> "0"]
TextOf(x) ==
  LET n == Len(x.digs)
      cs == TLCEval([k \in 1..n |-> DigitChars[x.digs[k] + 1]])
      body == IF n = 0 THEN <<"0">>
              ELSE IF x.exp <= 0 THEN <<"0", ".">> \o Zeros(-x.exp) \o cs
              ELSE IF x.exp >= n THEN cs \o Zeros(x.exp - n)
              ELSE SubSeq(cs, 1, x.exp) \o <<".">> \o SubSeq(cs, x.exp + 1, n)
  IN (IF x.neg THEN <<"-">> ELSE <<>>) \o body
=============================================================================
