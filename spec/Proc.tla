-------------------------------- MODULE Proc --------------------------------
(* A run whose evaluations are operating-system processes, as its environment sees it: the events of       *)
(* Run.tla plus what happens to processes.  An evaluation's process may have further processes in its      *)
(* group (fork).  It ends by itself (done), or is ended (kill): because it exceeded the time limit for     *)
(* evaluations, or because the run is stopping.  After the run has returned nothing of it is alive.        *)
(* The state is <<m, p>>: m as in Run.tla, p what the files and the process table add.                     *)
EXTENDS Run

Fresh0 == [min |-> <<>>, rs |-> {}, retv |-> <<>>, to |-> 0, forks |-> 0, kills |-> 0]

Limit(m) == IF "k" \in DOMAIN m.cfg THEN m.cfg.k ELSE <<>>
After(m) == IF "after" \in DOMAIN m.cfg THEN m.cfg.after ELSE <<>>
Slack == 3000               \* milliseconds by which the observed end of a process may lag behind
Stopping(m) == m.stop # "no" \/ m.termp \/ m.ph = "ret"
TimedOut(m, ev) == Limit(m) # <<>> /\ ev.ms >= Limit(m)[1]

PUpd(m, ev, r) ==
  CASE ev.t = "kill" ->
         IF m.ph = "ret" THEN [m EXCEPT !.infl = Del(@, ev.e)]
         ELSE IF ev.e \notin DOMAIN m.infl THEN m
         \* the time limit for evaluations makes it a rejected one, and so does the request to abort
         \* (or it was abandoned, which does not count it, if the target was reached)
         ELSE UpdDone([m EXCEPT !.infl[ev.e].ab = TRUE, !.late = IF m.thit /\ m.stop # "target" THEN @ + 1 ELSE @],
                      [e |-> ev.e, o |-> "rej"])
    [] ev.t = "taken" -> [m EXCEPT !.stop = IF m.termp /\ @ = "no" THEN "term" ELSE @, !.termp = FALSE]
    [] ev.t \in {"fork", "procs", "overdue", "bestfile", "nobestfile", "noreport"} -> m
    [] OTHER -> Upd(m, ev, r)

PFiles(m, p, ev, r) ==
  CASE ev.t = "run" -> Fresh0
    [] ev.t = "kill" -> [p EXCEPT !.kills = @ + 1, !.to = IF ~Stopping(m) THEN @ + 1 ELSE @]
    [] ev.t = "fork" -> [p EXCEPT !.forks = @ + ev.n]
    [] ev.t = "ret" -> [p EXCEPT !.retv = IF ev.ok THEN <<ev.v>> ELSE <<>>]
    [] ev.t = "rec" /\ ev.res # <<>> ->
         IF p.min = <<>> \/ FLt(ev.res[1], p.min[1]) THEN [p EXCEPT !.min = ev.res, !.rs = {r}]
         ELSE IF FEq(ev.res[1], p.min[1]) THEN [p EXCEPT !.rs = @ \cup {r}]
         ELSE p
    [] OTHER -> p

\* killed without a reason, too early, too late, or not with its whole group
BadKill(m, p, ev) ==
  IF Stopping(m) THEN {}
  ELSE If(~TimedOut(m, ev) \/ ev.ms > Limit(m)[1] + Slack \/ ev.left > 0, {"C07"})

\* the best-seen file holds the parameters of a best record, and that is what the report says
BadBest(m, p, ev) ==
  IF m.cfg.sample # 1 THEN {}
  ELSE CASE ev.t = "bestfile" -> If(p.min = <<>> \/ ~(\E r \in p.rs : JSame(ValOf(r), ev.val)), {"C14"})
                                 \cup If(p.min # <<>> /\ p.retv # <<>> /\ ~FEq(p.min[1], p.retv[1]), {"C14"})
         [] ev.t = "nobestfile" -> If(p.min # <<>> \/ p.retv # <<>>, {"C14"})
         [] OTHER -> {}

PBad(m, p, ev) ==
  CASE ev.t = "kill" -> BadKill(m, p, ev)
    [] ev.t = "overdue" -> {"C07"}
    [] ev.t = "procs" -> If(ev.alive > 0, {"C07"})
    [] ev.t = "taken" -> If(After(m) # <<>> /\ m.termp /\ ev.ms < After(m)[1], {"C04"})
    [] ev.t = "noreport" -> {"C14", "C15", "C16"}
    [] ev.t \in {"bestfile", "nobestfile"} -> BadBest(m, p, ev)
    [] ev.t = "fork" -> {}
    \* after an evaluation was ended for its time, the run goes on and counts it
    [] ev.t \in {"quiet", "ret"} -> LET b == Bad(m, ev)
                                   IN b \cup If(p.to > 0 /\ m.stop = "no" /\ b # {}, {"C07"})
    [] OTHER -> Bad(m, ev)
=============================================================================
