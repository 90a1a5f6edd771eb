-------------------------------- MODULE Splat --------------------------------
(***************************************************************************)
(* Concurrent evaluations of one splat expression v[*].xs[*].n. The        *)
(* expression is shared; each evaluation ("thread") has its own evaluation *)
(* context. The current item of each of the two splats is kept in a table  *)
(* of the expression, by context. An evaluation proceeds in steps on the   *)
(* table: set the current item, get it, clear it. (With Keyed FALSE the    *)
(* table has one entry for all contexts; this is only to see that the      *)
(* invariant can fail.)                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Keyed, Inner

None == <<>>
Key(t) == IF Keyed THEN t ELSE 1

VARIABLES table, th, sched, vals
vars == <<table, th, sched, vals>>
\* the value of v for a thread: a sequence of sequences of numbers
Start(v) == [phase |-> "next", rest |-> v, inner |-> <<>>, out |-> <<>>, row |-> <<>>]

Tab(s, t) == table[s][Key(t)]
Put(s, t, x) == table' = [table EXCEPT ![s][Key(t)] = x]
Upd(t, r) == th' = [th EXCEPT ![t] = r]
Step(t) ==
  LET s == th[t] IN
  /\ s.phase # "done"
  /\ sched' = Append(sched, t)
  /\ UNCHANGED vals
  /\ CASE s.phase = "next" /\ s.rest # <<>> -> Put(1, t, Head(s.rest)) /\ Upd(t, [s EXCEPT !.phase = "get1", !.rest = Tail(@)])
       [] s.phase = "next" -> Put(1, t, None) /\ Upd(t, [s EXCEPT !.phase = "done"])
       [] s.phase = "get1" ->
            LET x == Tab(1, t) IN
            /\ UNCHANGED table
            /\ IF Inner THEN Upd(t, [s EXCEPT !.phase = "inner", !.inner = x, !.row = <<>>])
               ELSE Upd(t, [s EXCEPT !.phase = "next", !.out = Append(@, x)])
       [] s.phase = "inner" /\ s.inner # <<>> -> Put(2, t, <<Head(s.inner)>>) /\ Upd(t, [s EXCEPT !.phase = "get2", !.inner = Tail(@)])
       [] s.phase = "inner" -> Put(2, t, None) /\ Upd(t, [s EXCEPT !.phase = "next", !.out = Append(@, s.row)])
       [] s.phase = "get2" -> UNCHANGED table /\ Upd(t, [s EXCEPT !.phase = "inner", !.row = @ \o Tab(2, t)])
Init0(vs) == /\ vals = vs /\ table = [s \in {1, 2} |-> [t \in Threads |-> None]]
             /\ th = [t \in Threads |-> Start(vs[t])] /\ sched = <<>>
Next == \E t \in Threads : Step(t)
Done == \A t \in Threads : th[t].phase = "done"
\* every evaluation gives what it gives alone
Alone == \A t \in Threads : th[t].phase = "done" => th[t].out = vals[t]
Clean == Done => \A s \in {1, 2}, t \in Threads : table[s][t] = None
=============================================================================
