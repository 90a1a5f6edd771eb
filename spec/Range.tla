-------------------------------- MODULE Range --------------------------------
(***************************************************************************)
(* Source ranges as sets of byte offsets, and scanning a buffer of         *)
(* characters piece by piece. A range is <<file, first byte, end byte>>;   *)
(* a position is <<line, column, byte>>.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bytes(r) == r[2]..(r[3] - 1)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* the bounds of a set of consecutive offsets, <<>> for the empty set
Span(S) == IF S = {} THEN <<>> ELSE <<Min(S), Max(S) + 1>>

Shared(r, o) == IF r[1] = o[1] THEN Bytes(r) \cap Bytes(o) ELSE {}
Before(r, o) == LET m == Shared(r, o) IN IF m = {} THEN {} ELSE {b \in Bytes(r) : b < Min(m)}
After(r, o) == LET m == Shared(r, o) IN IF m = {} THEN {} ELSE {b \in Bytes(r) : b > Max(m)}
\* everything between the first and the last offset of either
Over(r, o) == LET u == Bytes(r) \cup Bytes(o) IN IF u = {} THEN {} ELSE Min(u)..Max(u)

Answers(r, o, n) ==
  [empty |-> Bytes(r) = {},
   contains |-> [b \in 1..(n + 3) |-> (b - 2) \in Bytes(r)],
   overlaps |-> Shared(r, o) # {}, overlap |-> Span(Shared(r, o)),
   before |-> Span(Before(r, o)), after |-> Span(After(r, o)),
   over |-> Span(Over(r, o)), between |-> <<r[2], o[3]>>]

\* slicing a buffer of n bytes, also with bounds outside of it
CanSlice(lo, hi, n) == 0 <= lo /\ lo <= hi /\ hi <= n
Slice(lo, hi, n) == Span((lo..(hi - 1)) \cap (0..(n - 1)))

-----------------------------------------------------------------------------
(* Scanning. A text is a sequence of characters as the user sees them.      *)

Size(c) == CASE c \in {"<e2>", "\r\n"} -> 2 [] c \in {"<zh>", "<e1>"} -> 3 [] c = "<emo>" -> 8 [] OTHER -> 1
Ends(c) == c \in {"\n", "\r\n"}
Step(p, c) == IF Ends(c) THEN <<p[1] + 1, 1, p[3] + Size(c)>> ELSE <<p[1], p[2] + 1, p[3] + Size(c)>>
RECURSIVE Walk(_, _, _, _)
Walk(s, i, j, p) == IF i >= j THEN p ELSE Walk(s, i + 1, j, Step(p, s[i]))

MinI(a, b) == IF a < b THEN a ELSE b
\* the piece at index i: <<characters to advance, characters in the piece>>
LineEnd(s, i) == IF \E k \in i..Len(s) : Ends(s[k]) THEN Min({k \in i..Len(s) : Ends(s[k])}) ELSE Len(s) + 1
Piece(s, i, how) ==
  CASE how[1] = "lines" -> LET e == LineEnd(s, i) IN
         <<MinI(e, Len(s)) - i + 1, IF e > i /\ e = Len(s) + 1 /\ s[e - 1] = "\r" THEN e - i - 1 ELSE e - i>>
    [] how[1] = "chars" -> <<1, 1>>
    [] how[1] = "fixed" -> <<MinI(how[2], Len(s) + 1 - i), MinI(how[3], MinI(how[2], Len(s) + 1 - i))>>
    [] OTHER -> <<Len(s) + 1 - i, Len(s) + 1 - i>>

\* the ranges seen: <<start, end>> of each piece
RECURSIVE Scanned(_, _, _, _, _)
Scanned(s, i, p, how, left) ==
  IF i > Len(s) \/ left = 0 THEN <<>>
  ELSE LET d == Piece(s, i, how)
           e == Walk(s, i, i + d[2], p)
       IN <<<<p, e>>>> \o Scanned(s, i + d[1], Walk(s, i, i + d[1], p), how, left - 1)
=============================================================================
