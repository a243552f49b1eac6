---------------------------------- MODULE Conc ----------------------------------
(***************************************************************************)
(* Two clients at the same time. The design is the product of two          *)
(* independent copies of HbciDialog: a step is a step of one of them and   *)
(* leaves the other alone. Each copy has its own property monitor, so what *)
(* holds for one client alone has to hold for both, whatever the schedule. *)
(*                                                                         *)
(* Shared plants a defect: the named part of the state exists only once    *)
(* (a package-level variable, a shared template or buffer).                *)
(*                                                                         *)
(* A simulated behaviour yields two conversations and a schedule of their  *)
(* calls and exchanges, which is imposed on two real clients.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Api1, Ver1, Ops1, Api2, Ver2, Ops2, MaxCalls, Rand, Emit, Shared

VARIABLES cl1, cs1, m1, h1, cl2, cs2, m2, h2, sched
one == <<cl1, cs1, m1, h1>>
two == <<cl2, cs2, m2, h2>>

A == INSTANCE HbciDialog WITH cl <- cl1, cs <- cs1, m <- m1, h <- h1, Api <- Api1, Ver <- Ver1, Ops <- Ops1, Emit <- FALSE, Mut <- ""
B == INSTANCE HbciDialog WITH cl <- cl2, cs <- cs2, m <- m2, h <- h2, Api <- Api2, Ver <- Ver2, Ops <- Ops2, Emit <- FALSE, Mut <- ""

Init == A!Init /\ B!Init /\ sched = <<>>

\* what a step of one client (now c, s) does to the other one
SpillCl(c, o) == CASE Shared = "sys" -> [o EXCEPT !.sys = c.sys, !.sigsys = c.sigsys, !.encsys = c.encsys]
                   [] Shared = "fn" -> [o EXCEPT !.fn = c.fn]
                   [] Shared = "bpd" -> [o EXCEPT !.bpdv = c.bpdv, !.segs = c.segs, !.pins = c.pins, !.bank = c.bank]
                   [] Shared = "user" -> [o EXCEPT !.user = c.user]
                   [] Shared = "accts" -> [o EXCEPT !.accts = c.accts]
                   [] OTHER -> o
SpillCs(s, o) == CASE Shared = "num" -> [o EXCEPT !.num = s.num]
                   [] Shared = "dlg" -> [o EXCEPT !.dlg = s.dlg]
                   [] Shared = "results" -> [o EXCEPT !.tx = s.tx, !.acks = s.acks]
                   [] OTHER -> o

\* returning needs no turn of its own: it follows the exchange
Turn(i, was, now) == sched' = IF was.pc = "ret" THEN sched ELSE Append(sched, i)
Finished(s) == s.pc = "idle" /\ s.calls = MaxCalls
Out == IF Emit /\ Rand /\ Finished(cs1') /\ Finished(cs2')
       THEN PrintT("@@SC " \o ToJson([a |-> [cfg |-> m1'.cfg, calls |-> h1'], b |-> [cfg |-> m2'.cfg, calls |-> h2'], sched |-> sched'])) ELSE TRUE

First == A!Next /\ m2' = m2 /\ h2' = h2 /\ cl2' = SpillCl(cl1', cl2) /\ cs2' = SpillCs(cs1', cs2) /\ Turn(1, cs1, cs1') /\ Out
Second == B!Next /\ m1' = m1 /\ h1' = h1 /\ cl1' = SpillCl(cl2', cl1) /\ cs1' = SpillCs(cs2', cs1) /\ Turn(2, cs2, cs2') /\ Out
Next == First \/ Second
Spec == Init /\ [][Next]_<<one, two, sched>>

View == <<cl1, cs1, m1, cl2, cs2, m2>>
Good == m1.bad = {} /\ m2.bad = {}
================================================================================
