------------------------------- MODULE MCRange -------------------------------
(***************************************************************************)
(* What = "pairs": every pair of ranges in a buffer of N bytes and another *)
(* file; "slices": every pair of bounds, also outside the buffer;          *)
(* "scan": every text up to N characters with every way of splitting it.   *)
(*   Symmetric: sharing does not depend on the order, the three parts of a *)
(*   range are disjoint and cover it, and bounding covers both ranges.     *)
(*   Tiled: pieces that are not followed by skipped text leave no gap and  *)
(*   end where the text ends.                                              *)
(***************************************************************************)
EXTENDS Range, Json, IOUtils, CSV
CONSTANTS What, N

Chars == {"a", "\n", "\r\n", "\r", "<e2>", "<emo>", "<e1>"}
Ranges == {<<f, s, e>> : f \in {"f", "g"}, s \in 0..N, e \in 0..N}
Hows == {<<"lines">>, <<"chars">>, <<"all">>} \cup {<<"fixed", k, j>> : k \in 1..3, j \in 0..3}
Starts == {<<1, 1, 0>>, <<4, 7, 20>>, <<2, 1, 1>>}

VARIABLES a, b
vars == <<a, b>>
Init == CASE What = "pairs" -> /\ a \in {r \in Ranges : r[1] = "f" /\ r[2] <= r[3]}
                               /\ b \in {r \in Ranges : r[2] <= r[3]}
          [] What = "slices" -> a \in -2..(N + 2) /\ b \in -2..(N + 2)
          [] OTHER -> a = <<>> /\ b = 0
Next == /\ What = "scan" /\ Len(a) < N /\ UNCHANGED b
        \* a carriage return before a line feed is the other line ending
        /\ \E c \in Chars : ~(Len(a) > 0 /\ a[Len(a)] = "\r" /\ c = "\n") /\ a' = Append(a, c)

Seq2(S) == CHOOSE f \in [1..Cardinality(S) -> S] : \A x, y \in 1..Cardinality(S) : x # y => f[x] # f[y]
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
EmitCase ==
  CASE What = "pairs" -> Emit([what |-> What, r |-> a, o |-> b, n |-> N, want |-> Answers(a, b, N)])
    [] What = "slices" -> Emit([what |-> What, lo |-> a, hi |-> b, n |-> N, can |-> CanSlice(a, b, N), want |-> Slice(a, b, N)])
    [] OTHER -> \A how \in Hows, p \in Starts, left \in {0, 1, 2, 99} :
                  (left < 99 /\ how # <<"fixed", 1, 1>>)
                  \/ Emit([what |-> What, chars |-> a, how |-> how, start |-> p, left |-> left, want |-> Scanned(a, 1, p, how, left)])

Symmetric == What = "pairs" =>
  /\ Shared(a, b) = Shared(b, a)
  /\ Shared(a, b) # {} => /\ Before(a, b) \cup Shared(a, b) \cup After(a, b) = Bytes(a)
                          /\ Before(a, b) \cap Bytes(b) = {} /\ After(a, b) \cap Bytes(b) = {}
  /\ Bytes(a) \subseteq Over(a, b) /\ Bytes(b) \subseteq Over(a, b)
Tiled == What = "scan" =>
  \A how \in {<<"chars">>, <<"all">>, <<"fixed", 2, 2>>, <<"fixed", 3, 3>>}, p \in Starts :
     LET z == Scanned(a, 1, p, how, 99) IN
     /\ \A k \in 1..(Len(z) - 1) : z[k][2] = z[k + 1][1]
     /\ Len(z) > 0 => z[1][1] = p /\ z[Len(z)][2] = Walk(a, 1, Len(a) + 1, p)
=============================================================================
