------------------------------ MODULE ProcTrace ------------------------------
(* Validates recorded executions of the tool (any number of them, one after the other) against Proc.tla.   *)
EXTENDS Proc, Json
CONSTANTS TraceFile, PROP
VARIABLES l, m, p
Judging == {PROP}
Trace == ndJsonDeserialize(TraceFile)
TraceVal(r) == Trace[r].val
TInit == l = 1 /\ m = Idle /\ p = Fresh0
TNext == /\ l <= Len(Trace)
         /\ LET ev == Trace[l]
            IN /\ PROP \notin PBad(m, p, ev)
               /\ m' = PUpd(m, ev, l)
               /\ p' = PFiles(m, p, ev, l)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, m, p>>
Accepted == LET d == TLCGet("stats").diameter
            IN IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
