----------------------------- MODULE FuncTrace -----------------------------
(* Steps through recorded inputs and outputs, eight blocks in parallel; Bad(r) is the set of reasons record r is wrong.
   The module of a part of the system extends this one; the configuration puts its own verdict in for Bad. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

CONSTANT Bad(_)
Recs == ndJsonDeserialize(IOEnv.TRACES)
Block == 100
N == Len(Recs)
(* names no other module binds: TLC would otherwise not treat their constants as constants *)
VARIABLES blk, pos
TInit == blk \in 0..((N - 1) \div Block) /\ pos = blk * Block + 1
TNext == /\ pos <= N /\ pos <= (blk + 1) * Block
         /\ LET bad == Bad(Recs[pos]) IN IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> pos, bad |-> SetToSeq(bad)]))
         /\ pos' = pos + 1 /\ blk' = blk
         /\ IF pos' <= N /\ pos' <= (blk + 1) * Block THEN TRUE ELSE PrintT("@@END " \o ToString(pos - blk * Block))
TSpec == TInit /\ [][TNext]_<<blk, pos>>
=============================================================================
