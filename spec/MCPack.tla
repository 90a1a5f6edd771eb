------------------------------- MODULE MCPack -------------------------------
(* Every small set of ranges survives; every small list of entries with any  *)
(* numbers is read.                                                          *)
EXTENDS Pack, Json, IOUtils, CSV
CONSTANTS MaxRanges, Mode
\* positions of one file, in order: line lengths and line differences that
\* need one and two bytes, and differences written as the separator would be
Line == <<<<1, 1, 0>>, <<1, 31, 30>>, <<1, 66, 95>>, <<2, 1, 96>>, <<31, 65, 400>>, <<61, 1, 430>>, <<1061, 300, 70000>>>>
Files == <<"", "f", "g">>
R(f, i, j) == [file |-> f, s |-> Line[i], e |-> Line[j]]
Ranges == {NoRange} \cup {R(Files[f], i, j) : f \in 1..3, i \in 1..Len(Line), j \in 1..Len(Line)}
Proper == {r \in Ranges : r = NoRange \/ r.s[3] <= r.e[3]}
Small == {NoRange} \cup {R(Files[f], ij[1], ij[2]) : f \in {1, 3}, ij \in {<<1, 2>>, <<2, 4>>, <<5, 6>>}}
FilesOf(rs) == SelectSeq(Files, LAMBDA f : \E r \in rs : r.file = f)

\* entries to be read: numbers of ranges that may be out of bounds
Nums == {-1, 0, 1, 2, 3}
Chunk == {<<>>, Vlq(1) \o Vlq(1) \o Vlq(0), Vlq(0) \o Vlq(5) \o Vlq(5), Vlq(-1) \o Vlq(3) \o Vlq(-2), <<59>>, <<59, 59>>, Vlq(1) \o Vlq(1), <<129>>, Vlq(30) \o Vlq(64) \o Vlq(20000)}

Cases == IF Mode = "sets"
              THEN {[rs |-> s] : s \in {{a} : a \in Proper} \cup {{a, b} : a \in Proper, b \in Proper} \cup (IF MaxRanges > 2 THEN {{x, y, z} : x \in Small, y \in Small, z \in Small} ELSE {})}
              ELSE {[bytes |-> x \o y \o z, s |-> s, e |-> e, files |-> f] : x \in Chunk, y \in Chunk, z \in Chunk, s \in Nums, e \in Nums, f \in {<<>>, <<"f">>, <<"f", "g">>}}
VARIABLE c
Init == c \in Cases
Next == UNCHANGED c
RoundTrip ==
  Mode = "sets" => \A up \in BOOLEAN : LET w == TLCEval(Written(FilesOf(c.rs), c.rs, up)) IN \A r \in c.rs : Restored(w, r) = r
EmitCase ==
  CSVWrite("%1$s", <<ToJson(
    IF Mode = "sets" THEN [kind |-> "set", ranges |-> c.rs]
    ELSE LET es == Entries(c.bytes, 0) IN
         [kind |-> "read", bytes |-> c.bytes, s |-> c.s, e |-> c.e, files |-> c.files,
          want |-> IF Broken(es) THEN <<"err">> ELSE <<"ok", RangeAt(c.files, Unpacked(es, 0, Zero), c.s, c.e)>>])>>, IOEnv.OUT)
=============================================================================
