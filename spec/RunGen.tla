------------------------------- MODULE RunGen -------------------------------
(* Schedules for the real code: every behaviour of the environment of RunImpl at settled points, printed    *)
(* when the run returns.  The controller is scheduled canonically, the real one schedules itself.           *)
EXTENDS RunImpl, Json
Least(S) == CHOOSE e \in S : \A x \in S : e <= x
Canonical == CASE Starting # {} -> PollStart(Least(Starting))
               [] Starting = {} /\ cmd /\ ~sig -> Forward
               [] Starting = {} /\ ~(cmd /\ ~sig) /\ sig /\ ~latch -> Latch
               [] Starting = {} /\ ~(cmd /\ ~sig) /\ ~(sig /\ ~latch) /\ Aborting # {} -> PollAbort(Least(Aborting))
               [] Starting = {} /\ ~(cmd /\ ~sig) /\ ~(sig /\ ~latch) /\ Aborting = {} /\ Ending # {} -> PollDone(Least(Ending))
               [] OTHER -> Drained
\* in a batch, a terminate request comes last
Fresh2 == sched = <<>> \/ sched[Len(sched)][1] # "term"
GNext == \/ CtlEnabled /\ Canonical
         \/ Quiet
         \/ settled /\ Fresh2 /\ Env
GSpec == IInit /\ [][GNext]_ivars
\* without a budget and without requests the bound on evaluations ends the schedule
Stuck == settled /\ N = <<>> /\ ~Terms /\ pushed >= MaxCreated /\ Ending = {}
PrintSched == ph = "ret" \/ Stuck => PrintT(<<"SCHED", ToJson(sched)>>)
=============================================================================
