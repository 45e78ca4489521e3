------------------------------ MODULE ProcGen -------------------------------
(* Schedules for the real tool: the environment of ProcImpl moves at settled points only, the controller is *)
(* scheduled canonically.  One environment move per settled point.                                           *)
EXTENDS ProcImpl
Least(S) == CHOOSE e \in S : \A x \in S : e <= x
New == {e \in DOMAIN fu : fu[e].kid = "new"}
Ended == {e \in DOMAIN fu : fu[e].out # <<>> /\ ~(fu[e].kid = "hold" /\ fu[e].grand)}
Over == {e \in DOMAIN fu : fu[e].over}
Gone == {e \in DOMAIN fu : fu[e].kid # "new" /\ fu[e].out = <<>>}
Canonical == CASE New # {} -> Spawn(Least(New))
               [] New = {} /\ Ended # {} -> Finish(Least(Ended))
               [] New = {} /\ Ended = {} /\ Over # {} -> TimeOut(Least(Over))
               [] New = {} /\ Ended = {} /\ Over = {} /\ int /\ ~abort -> Latch
               [] New = {} /\ Ended = {} /\ Over = {} /\ abort /\ Gone # {} -> Abort(Least(Gone))
               [] OTHER -> Drained
GNext == \/ CtlEnabled /\ Canonical
         \/ Quiet
         \/ settled /\ Env
GSpec == PInit /\ [][GNext]_vars
=============================================================================
