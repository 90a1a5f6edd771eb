------------------------------- MODULE JPlace -------------------------------
(***************************************************************************)
(* Where the parts of a JSON document are in its text. A value is          *)
(*   <<"o", <<<<name, value>>..>>>>   <<"a", <<value..>>>>                 *)
(*   <<"s", parts>>   a string; parts <<"t", text>> or <<"r", name>>, a    *)
(*                    reference written as a template                      *)
(*   <<"w", text>>    a number or keyword                                  *)
(* and so are names, as parts. Between tokens the next of the given        *)
(* fillers is written. A placed value is <<kind, start, end, inner>>, kind *)
(* "o" (inner: <<name parts, start, end, value>>), "a" or "s" or "w".      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Inner(_), Lay(_, _, _), LayProps(_, _, _, _), LayElems(_, _, _, _)
Inner(ps) == IF ps = <<>> THEN "" ELSE (IF ps[1][1] = "t" THEN ps[1][2] ELSE "${" \o ps[1][2] \o "}") \o Inner(Tail(ps))
Quote(ps) == "\"" \o Inner(ps) \o "\""
\* state: [text, slot]; results: [v: placed, text, slot]
Put(st, t) == [st EXCEPT !.text = @ \o t]
Fill(st, fill) == [text |-> st.text \o (IF st.slot < Len(fill) THEN fill[st.slot + 1] ELSE ""), slot |-> st.slot + 1]
With(v, st) == [v |-> v, text |-> st.text, slot |-> st.slot]
St(r) == [text |-> r.text, slot |-> r.slot]
LayProps(ps, i, fill, st) ==
  IF i > Len(ps) THEN With(<<>>, st)
  ELSE LET a == TLCEval(Fill(st, fill))
           b == TLCEval(Put(a, Quote(ps[i][1])))
           c == TLCEval(Fill(Put(Fill(b, fill), ":"), fill))
           v == TLCEval(Lay(ps[i][2], fill, c))
           d == TLCEval(Fill(St(v), fill))
           r == LayProps(ps, i + 1, fill, IF i < Len(ps) THEN Put(d, ",") ELSE d)
       IN [r EXCEPT !.v = <<<<ps[i][1], Len(a.text), Len(b.text), v.v>>>> \o @]
LayElems(es, i, fill, st) ==
  IF i > Len(es) THEN With(<<>>, st)
  ELSE LET a == TLCEval(Fill(st, fill))
           v == TLCEval(Lay(es[i], fill, a))
           d == TLCEval(Fill(St(v), fill))
           r == LayElems(es, i + 1, fill, IF i < Len(es) THEN Put(d, ",") ELSE d)
       IN [r EXCEPT !.v = <<v.v>> \o @]
Lay(v, fill, st) ==
  LET s == Len(st.text) IN
  CASE v[1] = "o" -> LET r == TLCEval(LayProps(v[2], 1, fill, Put(st, "{"))) e == TLCEval(Put(Fill(St(r), fill), "}")) IN With(<<"o", s, Len(e.text), r.v>>, e)
    [] v[1] = "a" -> LET r == TLCEval(LayElems(v[2], 1, fill, Put(st, "["))) e == TLCEval(Put(Fill(St(r), fill), "]")) IN With(<<"a", s, Len(e.text), r.v>>, e)
    [] v[1] = "s" -> LET e == Put(st, Quote(v[2])) IN With(<<"s", s, Len(e.text), v[2]>>, e)
    [] v[1] = "w" -> LET e == Put(st, v[2]) IN With(<<"w", s, Len(e.text), <<>>>>, e)
\* the whole document
Laid(v, fill) == LET r == TLCEval(Lay(v, fill, Fill([text |-> "", slot |-> 0], fill))) e == Fill(St(r), fill) IN [v |-> r.v, text |-> e.text]

------------------------------------------------------------- (* ranges *)
RECURSIVE FlatQ(_), Values(_), Names(_), Refs(_), RefsIn(_, _, _)
FlatQ(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatQ(Tail(ss))
\* of every value: start, end, and the end of what introduces it
Open1(p) == <<p[2], IF p[1] \in {"o", "a"} THEN p[2] + 1 ELSE p[3]>>
Values(p) ==
  <<<<p[2], p[3], Open1(p)[2]>>>> \o
  (CASE p[1] = "o" -> FlatQ([i \in 1..Len(p[4]) |-> Values(p[4][i][4])])
     [] p[1] = "a" -> FlatQ([i \in 1..Len(p[4]) |-> Values(p[4][i])])
     [] OTHER -> <<>>)
Names(p) ==
  CASE p[1] = "o" -> FlatQ([i \in 1..Len(p[4]) |-> <<<<p[4][i][2], p[4][i][3]>>>> \o Names(p[4][i][4])])
    [] p[1] = "a" -> FlatQ([i \in 1..Len(p[4]) |-> Names(p[4][i])])
    [] OTHER -> <<>>
\* references in a string that starts at s
RefsIn(parts, s, acc) ==
  IF parts = <<>> THEN <<>>
  ELSE LET p == parts[1] IN
       IF p[1] = "t" THEN RefsIn(Tail(parts), s, acc + Len(p[2]))
       ELSE <<<<p[2], s + 1 + acc + 2, s + 1 + acc + 2 + Len(p[2])>>>> \o RefsIn(Tail(parts), s, acc + Len(p[2]) + 3)
Refs(p) ==
  CASE p[1] = "o" -> FlatQ([i \in 1..Len(p[4]) |-> RefsIn(p[4][i][1], p[4][i][2], 0) \o Refs(p[4][i][4])])
    [] p[1] = "a" -> FlatQ([i \in 1..Len(p[4]) |-> Refs(p[4][i])])
    [] p[1] = "s" -> RefsIn(p[4], p[2], 0)
    [] OTHER -> <<>>

\* strings that are wholly a path, a.b, or a call, f(a): where that is
Letters == {SubSeq("abcdefghijklmnopqrstuvwxyz", i, i) : i \in 1..26}
Chr(t, i) == SubSeq(t, i, i)
IsName(t) == t # "" /\ \A i \in 1..Len(t) : Chr(t, i) \in Letters
IsPath(t) == /\ t # "" /\ Chr(t, 1) \in Letters /\ Chr(t, Len(t)) \in Letters
             /\ \A i \in 1..Len(t) : Chr(t, i) \in Letters \/ (Chr(t, i) = "." /\ Chr(t, i + 1) # ".")
IsCall(t) == \E i \in 2..(Len(t) - 2) : Chr(t, i) = "(" /\ Chr(t, Len(t)) = ")" /\ IsName(SubSeq(t, 1, i - 1)) /\ IsName(SubSeq(t, i + 1, Len(t) - 1))
RECURSIVE Static(_)
Static(p) ==
  CASE p[1] = "o" -> FlatQ([i \in 1..Len(p[4]) |-> Static(p[4][i][4])])
    [] p[1] = "a" -> FlatQ([i \in 1..Len(p[4]) |-> Static(p[4][i])])
    [] p[1] = "s" -> LET t == TLCEval(Inner(p[4])) IN IF IsPath(t) \/ IsCall(t) THEN <<<<p[2] + 1, p[3] - 1>>>> ELSE <<>>
    [] OTHER -> <<>>

------------------------------------------------------------- (* bodies *)
\* the properties of an object or of all objects of an array
Props(p) == IF p[1] = "o" THEN p[4] ELSE FlatQ([i \in 1..Len(p[4]) |-> IF p[4][i][1] = "o" THEN p[4][i][4] ELSE <<>>])
\* where an item that is missing would go
Missing(p) == IF p[1] = "o" THEN <<p[3] - 1, p[3]>> ELSE <<p[2], p[2] + 1>>
\* name, range of the name, end
Arguments(p) == LET ps == Props(p) IN [i \in 1..Len(ps) |-> <<Inner(ps[i][1]), ps[i][2], ps[i][3], ps[i][4][3]>>]
\* blocks given by a value: labels, definition, missing item
RECURSIVE Under(_, _, _)
Under(p, n, ls) ==
  IF p[1] \notin {"o", "a"} THEN <<>>
  ELSE IF n > 0 THEN LET ps == Props(p) IN FlatQ([i \in 1..Len(ps) |-> Under(ps[i][4], n - 1, Append(ls, <<ps[i][2], ps[i][3]>>))])
  ELSE IF p[1] = "o" THEN <<<<ls, Open1(p), Missing(p)>>>>
  ELSE [i \in 1..Len(p[4]) |-> <<ls, Open1(p), Missing(p[4][i])>>]
BlocksOf(p, name, n) ==
  LET ps == SelectSeq(Props(p), LAMBDA x : Inner(x[1]) = name) IN
  FlatQ([i \in 1..Len(ps) |-> LET bs == Under(ps[i][4], n, <<>>) IN [k \in 1..Len(bs) |-> <<<<ps[i][2], ps[i][3]>>, bs[k][1], bs[k][2], bs[k][3]>>]])

------------------------------------------------------------- (* context *)
RECURSIVE Digits(_), Path(_, _)
Digits(n) == IF n < 10 THEN SubSeq("0123456789", n + 1, n + 1) ELSE Digits(n \div 10) \o Digits(n % 10)
Holds(p, at) == p[1] \in {"o", "a"} /\ p[2] <= at /\ at < p[3]
\* from the outside to the innermost object or array around a position
Path(p, at) ==
  LET n == Len(p[4])
      in(i) == IF p[1] = "o" THEN p[4][i][4] ELSE p[4][i]
      hit == IF p[1] \in {"o", "a"} THEN {i \in 1..n : Holds(in(i), at)} ELSE {}
  IN IF hit = {} THEN ""
     ELSE LET i == CHOOSE i \in hit : TRUE IN
          (IF p[1] = "o" THEN "." \o Inner(p[4][i][1]) ELSE "[" \o Digits(i - 1) \o "]") \o Path(in(i), at)
Context(p, at) == LET t == Path(p, at) IN IF t # "" /\ SubSeq(t, 1, 1) = "." THEN SubSeq(t, 2, Len(t)) ELSE t
Seen(d, n) ==
  [vals |-> LET ps == Props(d) IN FlatQ([i \in 1..Len(ps) |-> Values(ps[i][4])]),
   names |-> LET ps == Props(d) IN FlatQ([i \in 1..Len(ps) |-> Names(ps[i][4])]),
   refs |-> LET ps == Props(d) IN FlatQ([i \in 1..Len(ps) |-> Refs(ps[i][4])]),
   stat |-> LET ps == Props(d) IN FlatQ([i \in 1..Len(ps) |-> Static(ps[i][4])]),
   args |-> Arguments(d), missing |-> Missing(d), blocks |-> BlocksOf(d, "b", n)]
=============================================================================
