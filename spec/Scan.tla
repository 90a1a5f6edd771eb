-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* The scanner as a pushdown machine. Its state is                          *)
(*   [p, modes, braces, ret, docs]                                          *)
(* p: next character; modes: stack of "main", "str" (quoted template),      *)
(* "doc" (heredoc), "bare" (whole text is a template); braces: open braces; *)
(* ret: brace counts at which "}" closes a template sequence; docs: open    *)
(* heredocs as <<marker, at start of line>>.                                *)
(* One transition scans one token, or skips spaces. The source is a         *)
(* sequence of characters (user-perceived), see Bytes for their lengths;    *)
(* "<ff>" stands for a byte that is not valid UTF-8, "BOM" for a byte order *)
(* mark; "<e1>" is an e followed by a combining accent, "<e2>" one letter   *)
(* of two bytes, "<zh>" one of three, "<emo>" two code points.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Bytes(c) == CASE c = "<e2>" -> 2 [] c = "<e1>" -> 3 [] c = "<zh>" -> 3 [] c = "<emo>" -> 8 [] c = "BOM" -> 3 [] OTHER -> 1
Alpha == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_",
          "<e2>", "<e1>", "<zh>"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Self == {"[", "]", "(", ")", ".", ",", "*", "/", "%", "+", "-", "=", "<", ">", "!", "?", ":", "&", "|", "~", "^", ";", "`", "'"}
Blank == {" ", "\t"}

C(S, i) == IF i >= 1 /\ i <= Len(S) THEN S[i] ELSE ""
Is2(S, i, a, b) == C(S, i) = a /\ C(S, i + 1) = b
RECURSIVE RunEnd(_, _, _), UntilNL(_, _), UntilStar(_, _), NumEnd(_, _, _)
\* first index at or after i whose character is not in X
RunEnd(S, i, X) == IF C(S, i) \in X THEN RunEnd(S, i + 1, X) ELSE i
\* just after the newline that ends the line
UntilNL(S, i) == IF i > Len(S) THEN i ELSE IF S[i] = "\n" THEN i + 1 ELSE UntilNL(S, i + 1)
\* just after the next "*/", 0 if there is none
UntilStar(S, i) == IF i >= Len(S) THEN 0 ELSE IF Is2(S, i, "*", "/") THEN i + 2 ELSE UntilStar(S, i + 1)
\* digits, dots and exponents; the last accepted position is one not after a dot
NumEnd(S, i, acc) ==
  IF C(S, i) \in Digits THEN NumEnd(S, i + 1, i + 1)
  ELSE IF C(S, i) = "." THEN NumEnd(S, i + 1, acc)
  ELSE IF C(S, i) \in {"e", "E"} THEN
       IF C(S, i + 1) \in Digits THEN NumEnd(S, i + 2, i + 2)
       ELSE IF C(S, i + 1) \in {"+", "-"} /\ C(S, i + 2) \in Digits THEN NumEnd(S, i + 3, i + 3)
       ELSE acc
  ELSE acc
IdentEnd(S, i) == RunEnd(S, i, Alpha \cup Digits \cup {"-"})
NLLen(S, i) == IF C(S, i) = "\n" THEN 1 ELSE IF Is2(S, i, "\r", "\n") THEN 2 ELSE 0

RECURSIVE Join(_, _, _)
Join(S, i, j) == IF i >= j THEN "" ELSE S[i] \o Join(S, i + 1, j)
RECURSIVE TrimL(_, _, _), TrimR(_, _, _)
TrimL(S, i, j) == IF i < j /\ S[i] \in {" ", "\t", "\r"} THEN TrimL(S, i + 1, j) ELSE i
TrimR(S, i, j) == IF i < j /\ S[j - 1] \in {" ", "\t", "\r"} THEN TrimR(S, i, j - 1) ELSE j

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Top(st) == Last(st.modes)
Push(st, m) == [st EXCEPT !.modes = Append(@, m)]
Pop(st) == [st EXCEPT !.modes = Front(@)]
To(st, q) == [st EXCEPT !.p = q]
\* the text of the innermost open heredoc continues in the middle of a line
Mid(st) == IF st.docs = <<>> THEN st ELSE [st EXCEPT !.docs[Len(st.docs)][2] = FALSE]
Sol(st) == [st EXCEPT !.docs[Len(st.docs)][2] = TRUE]

\* result: <<tokens, next state>>; a token is <<type, from, to>> (to exclusive)
One(st, ty, q) == <<<<<<ty, st.p, q>>>>, To(st, q)>>

Opens(S, st) ==
  LET q == st.p + 2 + (IF C(S, st.p + 2) = "~" THEN 1 ELSE 0) IN
  <<<<<<IF S[st.p] = "$" THEN "interp" ELSE "control", st.p, q>>>>,
    [Push(Mid(To(st, q)), "main") EXCEPT !.braces = @ + 1, !.ret = Append(@, st.braces + 1)]>>

\* "$" or "%" in a template that does not open a sequence
Marker(S, st, ty) ==
  LET c == S[st.p] IN
  IF C(S, st.p + 1) = c /\ C(S, st.p + 2) = "{" THEN One(Mid(st), ty, st.p + 3)
  ELSE IF st.p = Len(S) THEN One(st, IF Len(st.modes) = 1 /\ Top(st) = "bare" THEN ty ELSE "invalid", st.p + 1)
  ELSE One(Mid(st), ty, st.p + 1)

ScanStr(S, st) ==
  LET p == st.p c == S[p] IN
  CASE c \in {"$", "%"} -> IF C(S, p + 1) = "{" THEN Opens(S, st) ELSE Marker(S, st, "qlit")
    [] c = "\"" -> LET r == One(st, "cquote", p + 1) IN <<r[1], Pop(r[2])>>
    [] c = "\\" -> IF C(S, p + 1) \in {"", "\r", "\n", "<ff>"} THEN One(st, "invalid", p + 1) ELSE One(st, "qlit", p + 2)
    [] c \in {"\r", "\n"} -> One(st, "qnewline", RunEnd(S, p, {"\r", "\n"}))
    [] c = "<ff>" -> One(st, "badutf8", p + 1)
    [] OTHER -> One(st, "qlit", p + 1)

RECURSIVE PlainEnd(_, _)
PlainEnd(S, i) == IF C(S, i) \in {"", "$", "%", "\r", "\n", "<ff>"} THEN i ELSE PlainEnd(S, i + 1)

ScanDoc(S, st) ==
  LET p == st.p c == S[p] q == PlainEnd(S, p) nl == NLLen(S, q) d == Last(st.docs) IN
  IF c \in {"$", "%"} THEN (IF C(S, p + 1) = "{" THEN Opens(S, st) ELSE Marker(S, st, "slit"))
  ELSE IF c = "<ff>" THEN One(st, "badutf8", p + 1)
  ELSE IF nl > 0 THEN
    LET l == TrimL(S, p, q) r == TrimR(S, l, q) IN
    IF d[2] /\ Join(S, l, r) = d[1]
    THEN <<<< <<"cheredoc", p, q>>, <<"newline", q, q + nl>> >>, Pop([To(st, q + nl) EXCEPT !.docs = Front(@)])>>
    ELSE One(Sol(st), "slit", q + nl)
  ELSE IF q > p THEN One(Mid(st), "slit", q)
  ELSE One(st, "invalid", Len(S) + 1)

ScanBare(S, st) ==
  LET p == st.p c == S[p] IN
  CASE c \in {"$", "%"} -> IF C(S, p + 1) = "{" THEN Opens(S, st) ELSE Marker(S, st, "slit")
    [] c = "<ff>" -> One(st, "badutf8", p + 1)
    [] c = "\r" /\ C(S, p + 1) # "\n" -> One(st, "slit", Len(S) + 1)
    [] OTHER -> One(st, "slit", p + 1)

HeredocOpen(S, p) ==  \* end of a heredoc introducer at p, 0 if there is none
  IF ~Is2(S, p, "<", "<") THEN 0
  ELSE LET n == p + 2 + (IF C(S, p + 2) = "-" THEN 1 ELSE 0)
           e == IF C(S, n) \in Alpha THEN IdentEnd(S, n) ELSE 0
       IN IF e = 0 \/ NLLen(S, e) = 0 THEN 0 ELSE e + NLLen(S, e)
HeredocName(S, p, q) ==
  LET n == p + 2 + (IF C(S, p + 2) = "-" THEN 1 ELSE 0)
      e == IF C(S, q - 2) = "\r" THEN q - 2 ELSE q - 1
  IN Join(S, n, e)

Pairs == ("==" :> "eqop") @@ ("!=" :> "neq") @@ (">=" :> "ge") @@ ("<=" :> "le") @@ ("&&" :> "and") @@ ("||" :> "or") @@ ("=>" :> "arrow")

ScanMain(S, st) ==
  LET p == st.p c == S[p] two == c \o C(S, p + 1) IN
  CASE c \in Blank -> <<<<>>, To(st, RunEnd(S, p, Blank))>>
    [] c \in Digits -> One(st, "number", NumEnd(S, p, p))
    [] c \in Alpha -> One(st, "ident", IdentEnd(S, p))
    [] c = "#" \/ two = "//" -> One(st, "comment", UntilNL(S, p))
    [] two = "/*" /\ UntilStar(S, p + 2) > 0 -> One(st, "comment", UntilStar(S, p + 2))
    [] NLLen(S, p) > 0 -> One(st, "newline", p + NLLen(S, p))
    [] two \in DOMAIN Pairs -> One(st, Pairs[two], p + 2)
    [] two = ".." /\ C(S, p + 2) = "." -> One(st, "ellipsis", p + 3)
    [] two = "~}" -> LET r == One(st, "seqend", p + 2)
                         s2 == [r[2] EXCEPT !.braces = @ - 1]
                     IN IF st.ret # <<>> /\ Last(st.ret) = st.braces THEN <<r[1], Pop([s2 EXCEPT !.ret = Front(@)])>> ELSE <<r[1], s2>>
    [] c = "{" -> LET r == One(st, "{", p + 1) IN <<r[1], [r[2] EXCEPT !.braces = @ + 1]>>
    [] c = "}" -> IF st.ret # <<>> /\ Last(st.ret) = st.braces
                  THEN LET r == One(st, "seqend", p + 1) IN <<r[1], Pop([r[2] EXCEPT !.braces = @ - 1, !.ret = Front(@)])>>
                  ELSE LET r == One(st, "}", p + 1) IN <<r[1], [r[2] EXCEPT !.braces = @ - 1]>>
    [] c = "\"" -> LET r == One(st, "oquote", p + 1) IN <<r[1], Push(r[2], "str")>>
    [] HeredocOpen(S, p) > 0 ->
         LET q == HeredocOpen(S, p) r == One(st, "oheredoc", q) IN
         <<r[1], Push([r[2] EXCEPT !.docs = Append(@, <<HeredocName(S, p, q), TRUE>>)], "doc")>>
    [] c = "<ff>" -> One(st, "badutf8", p + 1)
    [] c \in Self -> One(st, c, p + 1)
    [] OTHER -> One(st, "invalid", p + 1)

ScanIdent(S, st) == IF S[st.p] \in Alpha THEN One(st, "ident", IdentEnd(S, st.p))
                    ELSE One(st, IF S[st.p] = "<ff>" THEN "badutf8" ELSE "invalid", st.p + 1)

Step(S, st) ==
  CASE Top(st) = "main" -> ScanMain(S, st)
    [] Top(st) = "str" -> ScanStr(S, st)
    [] Top(st) = "doc" -> ScanDoc(S, st)
    [] Top(st) = "bare" -> ScanBare(S, st)
    [] Top(st) = "ident" -> ScanIdent(S, st)

Start(S, mode) == [p |-> IF C(S, 1) = "BOM" THEN 2 ELSE 1, modes |-> <<mode>>, braces |-> 0, ret |-> <<>>, docs |-> <<>>]

\* adjacent pieces of the same literal count as one token
Merge(ts, new) ==
  IF new = <<>> THEN ts
  ELSE IF ts # <<>> /\ Last(ts)[1] = new[1][1] /\ new[1][1] \in {"qlit", "slit"} /\ Last(ts)[3] = new[1][2]
       THEN Front(ts) \o <<<<new[1][1], Last(ts)[2], new[1][3]>>>> \o Tail(new)
       ELSE ts \o new
RECURSIVE Run(_, _, _)
Run(S, st, ts) == IF st.p > Len(S) THEN Append(ts, <<"eof", Len(S) + 1, Len(S) + 1>>)
                  ELSE LET r == Step(S, st) IN Run(S, r[2], Merge(ts, r[1]))
Tokens(S, mode) == Run(S, Start(S, mode), <<>>)

(* positions: <<line, column, byte>>; "\r\n" is one character               *)
RECURSIVE PosAt(_, _, _, _)
PosAt(S, i, j, pos) ==
  IF i >= j THEN pos
  ELSE LET c == S[i] b == pos[3] + Bytes(c) IN
       PosAt(S, i + 1, j, IF c = "\n" THEN <<pos[1] + 1, 1, b>>
                          ELSE IF c = "BOM" /\ i = 1 THEN <<pos[1], pos[2], b>>
                          ELSE IF c = "\r" /\ C(S, i + 1) = "\n" /\ i + 1 < j THEN <<pos[1], pos[2], b>>
                          ELSE <<pos[1], pos[2] + 1, b>>)
RECURSIVE Located(_, _, _, _, _)
Located(S, ts, k, i, pos) ==
  IF k > Len(ts) THEN <<>>
  ELSE LET a == PosAt(S, i, ts[k][2], pos) b == PosAt(S, ts[k][2], ts[k][3], a) IN
       <<<<ts[k][1], a, b>>>> \o Located(S, ts, k + 1, ts[k][3], b)
Expect(S, mode, start) == Located(S, Tokens(S, mode), 1, 1, start)

\* Not specified: several code points seen as one character outside of literals
\* and comments, and a carriage return without a newline after "$" or "%".
RECURSIVE Abstain(_, _)
Abstain(S, ts) == IF ts = <<>> THEN \E j \in 1..Len(S) : S[j] \in {"$", "%"} /\ C(S, j + 1) = "\r" /\ C(S, j + 2) # "\n"
                  ELSE (Head(ts)[1] = "invalid" /\ \E j \in Head(ts)[2]..(Head(ts)[3] - 1) : S[j] = "<emo>") \/ Abstain(S, Tail(ts))
=============================================================================
