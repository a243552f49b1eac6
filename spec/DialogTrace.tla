------------------------------ MODULE DialogTrace ------------------------------
(***************************************************************************)
(* Trace validation: every recorded execution of the real client (one line *)
(* of the trace file) is one behaviour; the monitor of HbciMonitor is      *)
(* stepped over its events. At the end of each trace its verdict is        *)
(* printed; a trace that is not consumed completely is an error.           *)
(***************************************************************************)
EXTENDS HbciMonitor, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
\* checks other than the first one of a failed call stay off once the call panicked
VARIABLES ti, l, m
vars == <<ti, l, m>>

TInit == /\ ti \in 1..Len(Traces)
         /\ l = 1
         /\ m = MInit(Traces[ti].cfg)
Consume == /\ l <= Len(Traces[ti].events)
           /\ l' = l + 1
           /\ ti' = ti
           /\ LET n == Step(m, Traces[ti].events[l]) IN
              \* remember at which event something went wrong, for the report
              m' = n
           /\ IF m'.bad # m.bad THEN PrintT("@@BAD " \o ToJson([id |-> Traces[ti].id, at |-> l, bad |-> m'.bad \ m.bad])) ELSE TRUE
Finish == /\ l = Len(Traces[ti].events) + 1
          /\ l' = l + 1
          /\ UNCHANGED <<ti, m>>
          /\ PrintT("@@END " \o ToString(ti))
TSpec == TInit /\ [][Consume \/ Finish]_vars
================================================================================
