------------------------------ MODULE ProcImpl ------------------------------
(* The design of process-based evaluation, shaped like src/process.rs inside the pool of src/controller.rs: *)
(* every evaluation's process is a group leader and guarded; the time limit, the abort request and the      *)
(* guard kill and reap the group.  The environment decides what processes do (fork, hold the output open,   *)
(* ignore SIGTERM, end with any outcome, never end), when time limits pass and when an interrupt arrives.   *)
(* Every step emits the events of Proc.tla; `bad` accumulates the properties they violate.                  *)
(* Bug # "none" plants a design bug (vacuity check of Proc.tla).                                            *)
EXTENDS Proc, Json
CONSTANTS Conc, MaxEval, TargetVal, MaxCreated, Vals, Outs,
          Kids,                 \* kinds of objective-function processes: subset of {"plain", "grand", "hold", "ign"}
          Timed,                \* TRUE: there is a time limit for evaluations
          Ints,                 \* TRUE: an interrupt may arrive
          EnvAnytime, Record, Bug
VARIABLES m, p, bad,
          fu,                   \* the pool: e -> [kid, leader, grand, over, out, saw]
          orphans,              \* processes alive whose evaluation is no longer in the pool
          made, done, abort, nacc, int, err, ph, settled, sched
vars == <<m, p, bad, fu, orphans, made, done, abort, nacc, int, err, ph, settled, sched>>

N == IF MaxEval = 99 THEN <<>> ELSE <<MaxEval>>
L(x) == <<x, 0, 0>>
ImplVal(r) == <<"s", ToString(r)>>
ImplJudged == {}
Cfg == [conc |-> Conc, n |-> N, target |-> IF TargetVal = 99 THEN <<>> ELSE <<L(TargetVal)>>, tn |-> <<>>, sample |-> 1,
        spec |-> <<"enum", <<"0", "1">>, "0">>, guess |-> <<>>, k |-> IF Timed THEN <<10>> ELSE <<>>, after |-> <<>>]
RECURSIVE Mon(_, _)
Mon(x, evs) ==
  IF evs = <<>> THEN x
  ELSE LET ev == evs[1][1]
           r == evs[1][2]
       IN Mon([m |-> PUpd(x.m, ev, r), p |-> PFiles(x.m, x.p, ev, r), bad |-> x.bad \cup PBad(x.m, x.p, ev)], Tail(evs))
Emit(evs) == LET x == Mon([m |-> m, p |-> p, bad |-> bad], evs) IN m' = x.m /\ p' = x.p /\ bad' = x.bad
Note(x) == sched' = IF Record THEN Append(sched, x) ELSE sched

\* processes of an evaluation that are alive
Alive(x) == (IF x.leader THEN {"leader"} ELSE {}) \cup (IF x.grand THEN {"grand"} ELSE {})
\* what survives a kill of the group
Survive(x) ==
  CASE Bug = "leader_only" -> Alive(x) \ {"leader"}
    [] Bug = "sigterm" -> IF x.kid = "ign" THEN Alive(x) ELSE {}
    [] Bug = "no_kill" -> Alive(x)
    [] Bug = "no_kill_if_leader_gone" -> IF x.leader THEN {} ELSE Alive(x)
    [] OTHER -> {}
\* what survives the guard
Guarded(x) == IF Bug \in {"no_guard", "no_guard_on_drop"} THEN Alive(x) ELSE Survive(x)
Tag(e, S) == {<<e, w>> : w \in S}

InitPool == IF N = <<>> THEN Conc ELSE Min(Conc, N[1])
PInit ==
  LET x == Mon([m |-> Idle, p |-> Fresh0, bad |-> {}], <<<<[t |-> "run", cfg |-> Cfg], 0>>>>)
  IN /\ m = x.m /\ p = x.p /\ bad = {}
     /\ fu = [e \in 0..(InitPool - 1) |-> [kid |-> "new", leader |-> FALSE, grand |-> FALSE, over |-> FALSE, out |-> <<>>, saw |-> FALSE]]
     /\ orphans = {} /\ made = InitPool /\ done = 0 /\ abort = FALSE /\ nacc = 0 /\ int = FALSE
     /\ err = <<>> /\ ph = "run" /\ settled = FALSE /\ sched = <<>>

\* the process is launched
Spawn(e) ==
  /\ ph = "run" /\ fu[e].kid = "new" /\ \A x \in DOMAIN fu : x < e => fu[x].kid # "new"
  /\ IF abort
     THEN fu' = Del(fu, e) /\ UNCHANGED <<m, p, bad, sched>>
     ELSE \E kid \in Kids :
            /\ fu' = [fu EXCEPT ![e].kid = kid, ![e].leader = kid # "hold", ![e].grand = kid # "plain"]
            /\ Note(<<"kid", e, kid>>)
            /\ Emit(<<<<[t |-> "start", e |-> e, id |-> e, seed |-> e, val |-> ImplVal(e), hon |-> TRUE], e>>>>)
  /\ settled' = FALSE
  /\ UNCHANGED <<orphans, made, done, abort, nacc, int, err, ph>>

\* the controller takes an evaluation that has ended out of the pool
Exits == LET alive == orphans
         IN <<<<[t |-> "procs", alive |-> Cardinality(alive)], 0>>>>
Return(evs, extra) ==
  /\ ph' = "ret"
  /\ LET left == orphans \cup extra \cup UNION {Tag(x, IF Bug = "no_guard_on_drop" THEN Alive(fu[x]) ELSE Guarded(fu[x])) : x \in DOMAIN fu \ DOMAIN fu'}
     IN /\ orphans' = left
        /\ Emit(evs \o <<<<[t |-> "procs", alive |-> Cardinality(left)], 0>>>>)

RetOk(mm, ca, cr) == <<<<[t |-> "ret", ok |-> TRUE, v |-> IF mm.best = <<>> THEN L(0) ELSE mm.best[1].v, isint |-> TRUE, n |-> 0,
              val |-> ImplVal(IF mm.best = <<>> THEN 0 ELSE CHOOSE r \in mm.best[1].rs : TRUE), acc |-> ca, rej |-> cr], 0>>>>
RetErr(k, e) == <<<<[t |-> "ret", ok |-> FALSE, err |-> k, e |-> e, acc |-> 0, rej |-> 0], 0>>>>
Finals(mm, er, acc, d) == IF er # <<>> THEN RetErr("fail", er[1]) ELSE IF acc > 0 THEN RetOk(mm, acc, d - acc) ELSE RetErr("noind", 0)

Settled0 == settled' = FALSE

\* an evaluation ended: own end seen (with all its output), or killed for its time or on request
Collect(e, o, evs, surv) ==
  LET d == IF o[1] = "fail" THEN done ELSE done + 1
      acc == nacc + (IF o[1] = "acc" THEN 1 ELSE 0)
      hitT == o[1] = "acc" /\ TargetVal # 99 /\ o[2] <= TargetVal /\ err = <<>>
      fin == N # <<>> /\ d >= N[1]
      er == IF o[1] = "fail" /\ err = <<>> /\ ~abort THEN <<e>> ELSE err
      refill == o[1] # "fail" /\ ~abort /\ (N = <<>> \/ made < N[1])
      rest == Del(fu, e)
  IN /\ done' = d /\ nacc' = acc /\ err' = er
     /\ abort' = (abort \/ o[1] = "fail")
     /\ UNCHANGED <<int, sched>> /\ Settled0
     /\ IF hitT \/ (fin /\ o[1] # "fail") \/ (~refill /\ rest = <<>>)
        THEN /\ fu' = <<>> /\ UNCHANGED made
             /\ Return(evs \o (IF hitT THEN [i \in 1..Cardinality(DOMAIN rest) |->
                                             <<[t |-> "kill", e |-> CHOOSE x \in DOMAIN rest : Cardinality({y \in DOMAIN rest : y < x}) = i - 1,
                                                ms |-> 0, left |-> 0], 0>>] ELSE <<>>)
                           \o Finals(Mon([m |-> m, p |-> p, bad |-> {}], evs).m, er, acc, d), Tag(e, surv))
        ELSE /\ fu' = IF refill THEN Put(rest, made, [kid |-> "new", leader |-> FALSE, grand |-> FALSE, over |-> FALSE, out |-> <<>>, saw |-> FALSE])
                      ELSE rest
             /\ made' = IF refill THEN made + 1 ELSE made
             /\ Emit(evs) /\ orphans' = orphans \cup Tag(e, surv) /\ UNCHANGED ph

DoneEv(e, o) == <<<<IF o[1] = "acc" THEN [t |-> "done", e |-> e, o |-> "acc", v |-> L(o[2]), n |-> o[2]]
                    ELSE [t |-> "done", e |-> e, o |-> o[1]], 0>>>>
Finish(e) ==
  /\ ph = "run" /\ fu[e].out # <<>> /\ ~(fu[e].kid = "hold" /\ fu[e].grand)
  /\ Collect(e, fu[e].out, DoneEv(e, fu[e].out), IF Bug = "no_guard" THEN Alive(fu[e]) ELSE Survive(fu[e]))

TimeOut(e) ==
  /\ ph = "run" /\ (fu[e].over \/ (Bug = "early" /\ Timed /\ fu[e].kid # "new" /\ fu[e].out = <<>>))
  /\ LET s == Survive(fu[e])
     IN IF "leader" \in s \/ Bug = "no_timeout" THEN FALSE
        ELSE Collect(e, <<"rej", 0>>, <<<<[t |-> "kill", e |-> e, ms |-> IF fu[e].over THEN 10 ELSE 0, left |-> Cardinality(s)], 0>>>>, s)

Abort(e) ==
  /\ ph = "run" /\ abort /\ fu[e].kid # "new" /\ fu[e].out = <<>>
  /\ Collect(e, <<"rej", 0>>, <<<<[t |-> "kill", e |-> e, ms |-> 0, left |-> Cardinality(Survive(fu[e]))], 0>>>>, Survive(fu[e]))

Latch == /\ ph = "run" /\ int /\ ~abort
         /\ abort' = TRUE /\ Settled0
         /\ UNCHANGED <<m, p, bad, fu, orphans, made, done, nacc, int, err, ph, sched>>

Drained == /\ ph = "run" /\ DOMAIN fu = {}
           /\ UNCHANGED <<fu, made, done, abort, nacc, int, err, sched>> /\ Settled0
           /\ Return(Finals(m, err, nacc, done), {})

Ctl == \/ \E e \in DOMAIN fu : Spawn(e) \/ Finish(e) \/ TimeOut(e) \/ Abort(e)
       \/ Latch \/ Drained
CtlEnabled == ph = "run" /\ (ENABLED Ctl)

Quiet == /\ ph = "run" /\ ~settled /\ ~CtlEnabled
         /\ settled' = TRUE
         /\ LET late == {e \in DOMAIN fu : fu[e].over}
            IN Emit((IF late # {} THEN <<<<[t |-> "overdue", e |-> CHOOSE e \in late : TRUE], 0>>>> ELSE <<>>) \o <<<<[t |-> "quiet"], 0>>>>)
         /\ Note(<<"quiet">>)
         /\ UNCHANGED <<fu, orphans, made, done, abort, nacc, int, err, ph>>

\* ---------------------------------------------------------------- environment
\* without a budget the number of evaluations is bounded by the environment
Room(k) == N # <<>> \/ abort \/ made + k + Cardinality({e \in DOMAIN fu : fu[e].out # <<>> \/ fu[e].over}) <= MaxCreated
Own(e) == fu[e].kid \in {"plain", "grand", "ign"} /\ fu[e].out = <<>> /\ ~fu[e].over
Idx(e) == Cardinality({x \in DOMAIN fu : x < e /\ fu[x].kid \in {"plain", "grand", "ign"} /\ fu[x].out = <<>>})
End(e) ==
  /\ ph = "run" /\ Own(e) /\ Room(1)
  /\ \E o \in {<<k, IF k = "acc" THEN v ELSE 0>> : k \in Outs, v \in Vals} :
       /\ fu' = [fu EXCEPT ![e].out = o, ![e].leader = FALSE]
       /\ Note(<<"rel", Idx(e), o[1], o[2]>>)
  /\ settled' = FALSE
  /\ UNCHANGED <<m, p, bad, orphans, made, done, abort, nacc, int, err, ph>>

\* time passes: everything in flight exceeds its limit
Pass == /\ ph = "run" /\ Timed /\ Room(Cardinality(DOMAIN fu))
        /\ \E e \in DOMAIN fu : fu[e].kid # "new" /\ fu[e].out = <<>> /\ ~fu[e].over
        /\ \A e \in DOMAIN fu : fu[e].kid # "new"
        /\ fu' = [e \in DOMAIN fu |-> IF fu[e].out = <<>> THEN [fu[e] EXCEPT !.over = TRUE] ELSE fu[e]]
        /\ Note(<<"timeout">>) /\ settled' = FALSE
        /\ UNCHANGED <<m, p, bad, orphans, made, done, abort, nacc, int, err, ph>>
Interrupt == /\ ph = "run" /\ Ints /\ ~int /\ ~abort
             /\ int' = TRUE /\ Note(<<"int">>) /\ settled' = FALSE
             /\ Emit(<<<<[t |-> "term"], 0>>>>)
             /\ UNCHANGED <<fu, orphans, made, done, abort, nacc, err, ph>>
Env == (\E e \in DOMAIN fu : End(e)) \/ Pass \/ Interrupt

PNext == Ctl \/ Quiet \/ ((EnvAnytime \/ settled) /\ Env)
PSpec == PInit /\ [][PNext]_vars
\* what the design is about: no process outlives the run, limits are kept
Allowed == bad = {}
Stuck == settled /\ ~int /\ N = <<>> /\ made >= MaxCreated
PrintSched == ph = "ret" => PrintT(<<"SCHED", ToJson(sched)>>)
=============================================================================
