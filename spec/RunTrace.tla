------------------------------ MODULE RunTrace ------------------------------
(* Validates recorded executions (any number of runs, one after the other) against Run.tla.               *)
EXTENDS Run, Json
CONSTANTS TraceFile, PROP
VARIABLES l, m
Judging == {PROP}
Trace == ndJsonDeserialize(TraceFile)
TraceVal(r) == Trace[r].val
TInit == l = 1 /\ m = Idle
TNext == /\ l <= Len(Trace)
         /\ LET ev == Trace[l]
            IN /\ PROP \notin Bad(m, ev)
               /\ m' = Upd(m, ev, l)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, m>>
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
