-------------------------------- MODULE Twin --------------------------------
(* A run is a function of its inputs (C09): the product of two executions with the same inputs moves in    *)
(* lockstep - the next observable event of one is the next observable event of the other.  Events that     *)
(* depend on timing only (quiet, abort) are no part of the observation.  The same product states that the  *)
(* spec's own initial value as guess gives the same run as no guess (C11), and that verbosity changes      *)
(* nothing (C15).                                                                                           *)
EXTENDS Domain, Json
CONSTANTS TraceFile, PROP
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

Same(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "start" -> a.id = b.id /\ a.seed = b.seed /\ JSame(a.val, b.val)
       [] a.t = "ret" -> /\ a.ok = b.ok
                         /\ IF a.ok THEN a.v = b.v /\ a.acc = b.acc /\ a.rej = b.rej /\ JSame(a.val, b.val)
                            ELSE a.err = b.err /\ a.e = b.e
       [] a.t \in {"rec"} -> a.id = b.id /\ a.seed = b.seed /\ a.res = b.res /\ JSame(a.val, b.val)
       [] a.t = "text" -> a.s = b.s
       [] a.t \in {"panic", "hang"} -> FALSE
       [] OTHER -> FALSE

WInit == l = 1
WNext == /\ l <= Len(Trace)
         /\ IF Same(Trace[l].a, Trace[l].b) THEN TRUE ELSE PrintT(<<"BADCASE", l>>)
         /\ l' = l + 1
WSpec == WInit /\ [][WNext]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
