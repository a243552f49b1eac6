------------------------------- MODULE Interleave -------------------------------
(***************************************************************************)
(* All ways to interleave the turns of several clients. Turns[k] is a      *)
(* tuple with the number of turns of every client: its calls and exchanges *)
(* (and, if replies take turns of their own, once more its exchanges).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Turns

VARIABLES k, s
Taken(i) == Len(SelectSeq(s, LAMBDA x : x = i))
Init == k \in 1..Len(Turns) /\ s = <<>>
Next == \E i \in 1..Len(Turns[k]) :
  /\ Taken(i) < Turns[k][i]
  /\ s' = Append(s, i) /\ k' = k
  /\ IF \A j \in 1..Len(Turns[k]) : Taken(j) + (IF i = j THEN 1 ELSE 0) = Turns[k][j] THEN PrintT("@@SC " \o ToJson([k |-> k, s |-> s'])) ELSE TRUE
Spec == Init /\ [][Next]_<<k, s>>
================================================================================
