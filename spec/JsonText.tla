------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON texts (RFC 8259) as sequences of characters, and the values they    *)
(* denote: <<"o", <<<<key, v>>, ...>>>>, <<"a", <<v, ...>>>>, <<"s", chars>>,*)
(* <<"n", number>>, <<"t", bool>>, <<"z">>. Character names are those of     *)
(* module Scan; control characters made by escapes are "<08>" and "<0c>".    *)
(* A number is <<"num", p, q>> or <<"any">> when out of the modelled range.  *)
(* Results are <<status, value, next>>; status "any" is used for texts the   *)
(* standard leaves open (bytes that are not UTF-8, lone surrogates).         *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Ws == {" ", "\n", "\r", "\t"}
Dig == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
HexD == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexU == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
At(S, i) == IF i >= 1 /\ i <= Len(S) THEN S[i] ELSE ""
RECURSIVE Skip(_, _), Run(_, _, _)
Skip(S, i) == IF At(S, i) \in Ws THEN Skip(S, i + 1) ELSE i
Run(S, i, X) == IF At(S, i) \in X THEN Run(S, i + 1, X) ELSE i
Word(S, i, w) == \A k \in 1..Len(w) : At(S, i + k - 1) = SubSeq(w, k, k)

IsHex(c) == \E k \in 1..16 : c = HexD[k] \/ c = HexU[k]
HexV(c) == CHOOSE k \in 0..15 : c = HexD[k + 1] \/ c = HexU[k + 1]
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* the character of a code, "" when the model has no name for it
CodeChar(n) ==
  CASE n >= 32 /\ n <= 126 -> SubSeq(Printable, n - 31, n - 31)
    [] n = 8 -> "<08>" [] n = 9 -> "\t" [] n = 10 -> "\n" [] n = 12 -> "<0c>" [] n = 13 -> "\r"
    [] n = 233 -> "<e2>" [] n = 19990 -> "<zh>" [] OTHER -> ""

RECURSIVE StrBody(_, _, _, _)
StrBody(S, i, acc, st) ==
  LET c == At(S, i) e == At(S, i + 1) IN
  CASE c = "" \/ c \in {"\n", "\r", "\t"} -> <<"err", acc, i>>
    [] c = "\"" -> <<st, acc, i + 1>>
    [] c = "<ff>" -> StrBody(S, i + 1, Append(acc, c), "any")
    [] c = "\\" ->
         (CASE e \in {"\"", "\\", "/"} -> StrBody(S, i + 2, Append(acc, e), st)
            [] e = "n" -> StrBody(S, i + 2, Append(acc, "\n"), st)
            [] e = "t" -> StrBody(S, i + 2, Append(acc, "\t"), st)
            [] e = "r" -> StrBody(S, i + 2, Append(acc, "\r"), st)
            [] e = "b" -> StrBody(S, i + 2, Append(acc, "<08>"), st)
            [] e = "f" -> StrBody(S, i + 2, Append(acc, "<0c>"), st)
            [] e = "u" /\ \A k \in 2..5 : IsHex(At(S, i + k)) ->
                 LET x == CodeChar(4096 * HexV(At(S, i + 2)) + 256 * HexV(At(S, i + 3)) + 16 * HexV(At(S, i + 4)) + HexV(At(S, i + 5))) IN
                 IF x = "" THEN StrBody(S, i + 6, acc, "any") ELSE StrBody(S, i + 6, Append(acc, x), st)
            [] OTHER -> <<"err", acc, i>>)
    [] OTHER -> StrBody(S, i + 1, Append(acc, c), st)

RECURSIVE DigVal(_, _, _, _), P10(_), Gcd(_, _), Dyadic(_)
DigVal(S, i, j, acc) == IF i >= j THEN acc ELSE DigVal(S, i + 1, j, 10 * acc + (CHOOSE d \in 0..9 : S[i] = HexD[d + 1]))
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Dyadic(q) == IF q = 1 THEN TRUE ELSE IF q % 2 = 1 THEN FALSE ELSE Dyadic(q \div 2)
Frac(neg, m, q) ==
  LET g == Gcd(m, q) p == m \div g d == q \div g IN
  IF ~Dyadic(d) \/ (neg /\ m = 0) THEN <<"any">> ELSE <<"num", IF neg THEN 0 - p ELSE p, d>>
Number(S, i) ==
  LET neg == At(S, i) = "-"
      a == IF neg THEN i + 1 ELSE i
      ie == IF At(S, a) = "0" THEN a + 1 ELSE Run(S, a, Dig)
      hf == At(S, ie) = "."
      fe == IF hf THEN Run(S, ie + 1, Dig) ELSE ie
      he == At(S, fe) \in {"e", "E"}
      es == IF he THEN (IF At(S, fe + 1) \in {"+", "-"} THEN fe + 2 ELSE fe + 1) ELSE fe
      ee == IF he THEN Run(S, es, Dig) ELSE fe
      fl == IF hf THEN fe - ie - 1 ELSE 0
      ev == IF ~he \/ ee - es > 2 THEN 0 ELSE DigVal(S, es, ee, 0)
      x == (IF At(S, fe + 1) = "-" THEN 0 - ev ELSE ev) - fl      \* decimal exponent of all digits
      m == P10(fl) * DigVal(S, a, ie, 0) + (IF hf THEN DigVal(S, ie + 1, fe, 0) ELSE 0)
  IN IF ie = a \/ (hf /\ fl = 0) \/ (he /\ ee = es) THEN <<"err", <<"any">>, i>>
     ELSE IF (ie - a) + fl > 6 \/ ee - es > 2 \/ x > 3 \/ x < -6 THEN <<"ok", <<"any">>, ee>>
     ELSE IF x >= 0 THEN <<"ok", Frac(neg, m * P10(x), 1), ee>>
     ELSE <<"ok", Frac(neg, m, P10(0 - x)), ee>>

Worse(a, b) == IF a = "err" \/ b = "err" THEN "err" ELSE IF a = "any" \/ b = "any" THEN "any" ELSE "ok"
RECURSIVE Value(_, _), Elems(_, _, _, _), Props(_, _, _, _)
\* i is at the first character of the value
Value(S, i) ==
  LET c == At(S, i) bad == <<"err", <<"z">>, i>> IN
  CASE c = "\"" -> LET x == StrBody(S, i + 1, <<>>, "ok") IN <<x[1], <<"s", x[2]>>, x[3]>>
    [] c = "-" \/ c \in Dig -> LET x == Number(S, i) IN <<x[1], <<"n", x[2]>>, x[3]>>
    [] Word(S, i, "true") -> <<"ok", <<"t", TRUE>>, i + 4>>
    [] Word(S, i, "false") -> <<"ok", <<"t", FALSE>>, i + 5>>
    [] Word(S, i, "null") -> <<"ok", <<"z">>, i + 4>>
    [] c = "[" -> LET j == Skip(S, i + 1) IN
                  IF At(S, j) = "]" THEN <<"ok", <<"a", <<>>>>, j + 1>> ELSE Elems(S, j, <<>>, "ok")
    [] c = "{" -> LET j == Skip(S, i + 1) IN
                  IF At(S, j) = "}" THEN <<"ok", <<"o", <<>>>>, j + 1>> ELSE Props(S, j, <<>>, "ok")
    [] OTHER -> bad
Elems(S, i, acc, st) ==
  LET v == Value(S, i) IN
  IF v[1] = "err" THEN v
  ELSE LET j == Skip(S, v[3]) a2 == Append(acc, v[2]) s2 == Worse(st, v[1]) IN
       CASE At(S, j) = "," -> Elems(S, Skip(S, j + 1), a2, s2)
         [] At(S, j) = "]" -> <<s2, <<"a", a2>>, j + 1>>
         [] OTHER -> <<"err", <<"z">>, j>>
Props(S, i, acc, st) ==
  IF At(S, i) # "\"" THEN <<"err", <<"z">>, i>>
  ELSE LET k == StrBody(S, i + 1, <<>>, "ok") c == Skip(S, k[3]) IN
       IF k[1] = "err" \/ At(S, c) # ":" THEN <<"err", <<"z">>, i>>
       ELSE LET v == Value(S, Skip(S, c + 1)) IN
            IF v[1] = "err" THEN v
            ELSE LET j == Skip(S, v[3]) a2 == Append(acc, <<k[2], v[2]>>) s2 == Worse(Worse(st, k[1]), v[1]) IN
                 CASE At(S, j) = "," -> Props(S, Skip(S, j + 1), a2, s2)
                   [] At(S, j) = "}" -> <<s2, <<"o", a2>>, j + 1>>
                   [] OTHER -> <<"err", <<"z">>, j>>

\* A whole document: <<status, value>>
Document(S) ==
  LET v == Value(S, Skip(S, 1)) IN
  IF v[1] = "err" \/ Skip(S, v[3]) <= Len(S) \/ v[2][1] \notin {"o", "a"} THEN <<"err", <<"z">>>> ELSE <<v[1], v[2]>>

RECURSIVE Text(_), Plain(_), Matches(_, _)
Text(cs) == IF cs = <<>> THEN "" ELSE cs[1] \o Text(Tail(cs))
\* the value with strings instead of character sequences
Plain(v) ==
  CASE v[1] = "s" -> <<"s", Text(v[2])>>
    [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Plain(v[2][i])]>>
    [] v[1] = "o" -> <<"o", [i \in 1..Len(v[2]) |-> <<Text(v[2][i][1]), Plain(v[2][i][2])>>]>>
    [] OTHER -> v
\* does an observed plain value agree (numbers outside the model match any)
Matches(w, g) ==
  IF w[1] # g[1] THEN FALSE
  ELSE CASE w[1] = "n" -> w[2] = <<"any">> \/ w[2] = g[2]
         [] w[1] = "a" -> Len(w[2]) = Len(g[2]) /\ \A i \in 1..Len(w[2]) : Matches(w[2][i], g[2][i])
         [] w[1] = "o" -> Len(w[2]) = Len(g[2]) /\ \A i \in 1..Len(w[2]) : w[2][i][1] = g[2][i][1] /\ Matches(w[2][i][2], g[2][i][2])
         [] OTHER -> w = g
\* The properties of the root can be read back when their names are distinct
\* and none is the comment name.
Readable(v) == v[1] = "o" /\ (\A i, j \in 1..Len(v[2]) : i # j => Text(v[2][i][1]) # Text(v[2][j][1]))
               /\ \A i \in 1..Len(v[2]) : Text(v[2][i][1]) # "//"
Seen(S) == LET d == Document(S) IN
           IF d[1] # "ok" THEN <<d[1]>> ELSE IF Readable(d[2]) THEN <<"ok", Plain(d[2])>> ELSE <<"ok">>
=============================================================================
