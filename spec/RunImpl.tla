------------------------------- MODULE RunImpl -------------------------------
(* The design of the optimizer's run, shaped like src/controller.rs, src/algorithm.rs (population only)    *)
(* and src/async_launch.rs: a pool of evaluation futures that is polled in arbitrary order, a latch for     *)
(* the abort, a broadcast to the evaluations, a capped population with re-evaluation.  Every step emits     *)
(* the events of Run.tla; `bad` accumulates the properties they violate.  The environment completes         *)
(* evaluations in any order with any outcome, and may request termination at any point.                     *)
(* Bug # "none" plants a design bug: TLC then has to find a violation (vacuity check of Run.tla).            *)
EXTENDS Run

CONSTANTS Conc, MaxEval, TargetVal, Sample,  \* configuration (99: none)
          Cap, MinPop,              \* population cap, population needed for re-evaluation
          MaxCreated,               \* bound on evaluations for unlimited budgets
          Vals, Outs, Hons,         \* objective values (small integers), outcomes, honour-abort choices
          AbortKinds,               \* outcomes of an evaluation that honours the abort
          Terms,                    \* TRUE: the environment may request termination
          EnvAnytime,               \* FALSE: the environment moves only when the run has settled
          Record,                   \* TRUE: keep the environment's moves in sched
          Bug

VARIABLES m, bad,                   \* monitor
          fu,                       \* the pool: e -> [st, id, seed, out, hon, saw]   st: new, run, out
          pop, bestF,               \* population (set of individuals), best final individual
          nid, nseed, pushed, ca, cr,
          latch, bcast,             \* abort_signal_received, abort broadcast sent
          cmd, sig,                 \* terminate command delivered / forwarded to the controller
          err, ph, settled, sched
ivars == <<m, bad, fu, pop, bestF, nid, nseed, pushed, ca, cr, latch, bcast, cmd, sig, err, ph, settled, sched>>

N == IF MaxEval = 99 THEN <<>> ELSE <<MaxEval>>
Target == IF TargetVal = 99 THEN <<>> ELSE <<TargetVal>>
AbortOuts == {<<k, IF k = "acc" THEN CHOOSE v \in Vals : \A w \in Vals : v <= w ELSE 0>> : k \in AbortKinds}
DesignVal(r) == <<"s", ToString(r)>>
DesignJudged == {}
DSpec == <<"enum", <<"0", "1">>, "0">>
L(x) == <<x, 0, 0>>
Cfg == [conc |-> Conc, n |-> N, target |-> IF Target = <<>> THEN <<>> ELSE <<L(Target[1])>>,
        tn |-> IF Target = <<>> THEN <<>> ELSE <<Target[1] * Sample>>,
        sample |-> Sample, spec |-> DSpec, guess |-> <<>>]

\* the monitor after a sequence of events <<ev, ref>>
RECURSIVE Mon(_, _)
Mon(mb, evs) ==
  IF evs = <<>> THEN mb
  ELSE Mon([m |-> Upd(mb.m, evs[1][1], evs[1][2]), bad |-> mb.bad \cup Bad(mb.m, evs[1][1])], Tail(evs))
Emit(evs) == LET x == Mon([m |-> m, bad |-> bad], evs) IN m' = x.m /\ bad' = x.bad

Note(x) == sched' = IF Record THEN Append(sched, x) ELSE sched

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
\* rank order: mean, then id
Before(a, b) == LET x == SumSeq(a.vals) * Len(b.vals)
                    y == SumSeq(b.vals) * Len(a.vals)
                IN x < y \/ (x = y /\ a.id < b.id)
First(S) == CHOOSE a \in S : \A b \in S \ {a} : Before(a, b)
Last(S) == CHOOSE a \in S : \A b \in S \ {a} : Before(b, a)
RECURSIVE Evict(_)
Evict(S) == IF Cardinality(S) <= Cap THEN S
            ELSE Evict(S \ {IF Bug = "evict_best" THEN First(S) ELSE Last(S)})

Final(a) == Len(a.vals) >= Sample
ReadyInds == {a \in pop : ~Final(a)}

\* ---------------------------------------------------------------- creating evaluations
\* the individual evaluated next (reeval or fresh); the initial batch always creates fresh ones
NewEval(ind, seed) == [st |-> "new", id |-> ind.id, seed |-> seed, out |-> <<>>, hon |-> TRUE, saw |-> FALSE,
                       vals |-> ind.vals]
Fresh1(i) == [id |-> i, vals |-> <<>>]

IInit ==
  LET k == IF N = <<>> \/ (Bug = "batch_ignores_budget") THEN Conc ELSE Min(Conc, N[1])
      x == Mon([m |-> Idle, bad |-> {}], <<<<[t |-> "run", cfg |-> Cfg], 0>>>>)
  IN /\ m = x.m /\ bad = {}
     /\ fu = [e \in 0..(k - 1) |-> NewEval(Fresh1(e), e)]
     /\ pop = {} /\ bestF = <<>> /\ nid = k /\ nseed = k /\ pushed = k /\ ca = 0 /\ cr = 0
     /\ latch = FALSE /\ bcast = FALSE /\ cmd = FALSE /\ sig = FALSE
     /\ err = <<>> /\ ph = "run" /\ settled = FALSE /\ sched = <<>>

\* ---------------------------------------------------------------- controller steps
Running(e) == e \in DOMAIN fu /\ fu[e].st = "run"

\* first poll of a future; new futures are polled in the order of their creation
PollStart(e) ==
  /\ ph = "run" /\ fu[e].st = "new"
  /\ \A x \in DOMAIN fu : x < e => fu[x].st # "new"
  /\ settled' = FALSE
  /\ IF bcast /\ Bug \notin {"start_after_abort", "push_after_abort"}
     THEN /\ fu' = Del(fu, e) /\ UNCHANGED <<m, bad, sched>>
     ELSE \E h \in Hons :
            /\ fu' = [fu EXCEPT ![e].st = "run", ![e].hon = h]
            /\ Note(<<"hon", e, h>>)
            /\ Emit(<<<<[t |-> "start", e |-> e, id |-> fu[e].id,
                         seed |-> IF Bug = "seed_is_id" THEN fu[e].id ELSE fu[e].seed,
                         val |-> DesignVal(fu[e].id), hon |-> h], fu[e].id>>>>)
  /\ UNCHANGED <<pop, bestF, nid, nseed, pushed, ca, cr, latch, bcast, cmd, sig, err, ph>>

\* the evaluation sees the abort request
PollAbort(e) ==
  /\ ph = "run" /\ Running(e) /\ bcast /\ ~fu[e].saw /\ Bug # "no_broadcast"
  /\ settled' = FALSE
  /\ IF fu[e].hon
     THEN \E o \in AbortOuts : /\ fu' = [fu EXCEPT ![e].saw = TRUE, ![e].st = "out", ![e].out = o]
                               /\ Note(<<"abrt", e, o[1]>>)
     ELSE fu' = [fu EXCEPT ![e].saw = TRUE] /\ UNCHANGED sched
  /\ Emit(<<<<[t |-> "abort", e |-> e], 0>>>>)
  /\ UNCHANGED <<pop, bestF, nid, nseed, pushed, ca, cr, latch, bcast, cmd, sig, err, ph>>

DropAll(f) == LET S == {e \in DOMAIN f : f[e].st # "new"}
                  RECURSIVE D(_)
                  D(T) == IF T = {} THEN <<>> ELSE LET e == CHOOSE e \in T : TRUE
                                                   IN <<<<[t |-> "drop", e |-> e], 0>>>> \o D(T \ {e})
              IN D(S)
RetEv(er, b, a, r) ==
  IF er # <<>> THEN <<<<[t |-> "ret", ok |-> FALSE, err |-> er[1], e |-> er[2], acc |-> 0, rej |-> 0], 0>>>>
  ELSE IF b = <<>> THEN <<<<[t |-> "ret", ok |-> FALSE, err |-> "noind", e |-> 0, acc |-> 0, rej |-> 0], 0>>>>
  ELSE LET s == SumSeq(b[1].vals)
       IN <<<<[t |-> "ret", ok |-> TRUE, v |-> L(s \div Sample), isint |-> TRUE, n |-> s,
               val |-> DesignVal(b[1].id), acc |-> a, rej |-> r], 0>>>>
End == <<<<[t |-> "end"], 0>>>>

\* a finished evaluation is processed: recorded, counted, entered into the population, replaced
ProcessOk(e, o) ==
  LET x == fu[e]
      ok == o[1] = "acc"
      ind == [id |-> x.id, vals |-> Append(x.vals, o[2])]
      pop1 == IF ok THEN Evict(pop \cup {ind}) ELSE pop
      b1 == IF Bug \in {"best_from_pop", "evict_best"}
            THEN LET F == {a \in pop1 : Final(a)} IN IF F = {} THEN <<>> ELSE <<First(F)>>
            ELSE IF ok /\ Final(ind) /\ (bestF = <<>> \/ Before(ind, bestF[1]) \/ (Bug = "last_wins"))
            THEN <<ind>> ELSE bestF
      ca1 == IF ok THEN ca + 1 ELSE ca
      cr1 == IF ok THEN cr ELSE cr + 1
      fu1 == Del(fu, e)
      evs == <<<<[t |-> "done", e |-> e, o |-> o[1], v |-> L(o[2]), n |-> o[2]], 0>>>>
             \o (IF Bug = "no_record_for_rejected" /\ ~ok THEN <<>>
                 ELSE <<<<[t |-> "rec", id |-> x.id, seed |-> IF Bug = "seed_is_id" THEN x.id ELSE x.seed,
                       val |-> DesignVal(x.id),
                       res |-> IF ok THEN <<L(o[2])>> ELSE <<>>, meta |-> <<>>], 0>>>>)
      hit == /\ Target # <<>> /\ b1 # <<>> /\ err = <<>>
             /\ SumSeq(b1[1].vals) <= Target[1] * Len(b1[1].vals)
      spent == N # <<>> /\ ca1 + cr1 >= N[1]
      mayPush == /\ (N = <<>> \/ pushed < N[1])
                 /\ (~latch \/ Bug = "push_after_abort")
                 /\ (ok \/ Bug # "no_replacement_for_rejected")
      leave(er) == /\ ph' = "ret" /\ fu' = <<>>
                   /\ Emit(evs \o DropAll(fu1) \o RetEv(er, b1, ca1, cr1) \o End)
                   /\ pop' = pop1
                   /\ UNCHANGED <<nid, nseed, pushed>>
  IN /\ bestF' = b1 /\ ca' = ca1 /\ cr' = cr1
     /\ CASE hit /\ Bug # "ignore_target" -> leave(err)
          [] ~(hit /\ Bug # "ignore_target") /\ spent -> leave(err)
          [] OTHER ->
               /\ ph' = ph
               /\ Emit(evs)
               /\ IF ~mayPush THEN fu' = fu1 /\ pop' = pop1 /\ UNCHANGED <<nid, nseed, pushed>>
                  ELSE /\ pushed' = pushed + 1 /\ nseed' = nseed + 1
                       /\ \/ /\ fu' = Put(fu1, pushed, NewEval(Fresh1(nid), nseed))
                             /\ nid' = nid + 1 /\ pop' = pop1
                          \/ /\ Sample > 1 /\ Cardinality(pop1) >= MinPop
                             /\ {a \in pop1 : ~Final(a)} # {}
                             /\ LET a == First({a \in pop1 : ~Final(a)})
                                IN /\ fu' = Put(fu1, pushed, NewEval(a, nseed))
                                   \* taken out of the population, so it is never in flight twice
                                   /\ pop' = IF Bug = "reeval_keeps" THEN pop1 ELSE pop1 \ {a}
                             /\ nid' = nid
     /\ UNCHANGED <<latch, bcast, err>>

ProcessErr(e, o) ==
  /\ fu' = Del(fu, e)
  /\ Emit(<<<<[t |-> "done", e |-> e, o |-> o[1], v |-> L(0), n |-> 0], 0>>>>)
  /\ IF latch THEN UNCHANGED <<latch, bcast, err>>
     ELSE /\ latch' = TRUE /\ bcast' = TRUE
          /\ err' = IF Bug = "swallow_error" THEN <<>> ELSE <<o[1], e>>
  /\ UNCHANGED <<pop, bestF, nid, nseed, pushed, ca, cr, ph>>

PollDone(e) ==
  /\ ph = "run" /\ fu[e].st = "out"
  /\ settled' = FALSE
  /\ LET o == fu[e].out
     IN IF o[1] \in {"acc", "rej"} THEN ProcessOk(e, o) ELSE ProcessErr(e, o)
  /\ UNCHANGED <<cmd, sig, sched>>

\* the terminate command is forwarded; the controller latches the abort and broadcasts it
Forward == /\ ph = "run" /\ cmd /\ ~sig /\ sig' = TRUE /\ settled' = FALSE
           /\ UNCHANGED <<m, bad, fu, pop, bestF, nid, nseed, pushed, ca, cr, latch, bcast, cmd, err, ph, sched>>
Latch == /\ ph = "run" /\ sig /\ ~latch /\ latch' = TRUE /\ bcast' = TRUE /\ settled' = FALSE
         /\ UNCHANGED <<m, bad, fu, pop, bestF, nid, nseed, pushed, ca, cr, cmd, sig, err, ph, sched>>
\* the pool is empty
Drained == /\ ph = "run" /\ DOMAIN fu = {} /\ ph' = "ret" /\ settled' = FALSE
           /\ Emit(RetEv(err, bestF, ca, cr) \o End)
           /\ UNCHANGED <<fu, pop, bestF, nid, nseed, pushed, ca, cr, latch, bcast, cmd, sig, err, sched>>
\* early return on a request, leaving evaluations behind
Hasty == /\ Bug = "return_at_once" /\ ph = "run" /\ latch /\ ph' = "ret" /\ settled' = FALSE
         /\ Emit(DropAll(fu) \o RetEv(err, bestF, ca, cr) \o End)
         /\ UNCHANGED <<fu, pop, bestF, nid, nseed, pushed, ca, cr, latch, bcast, cmd, sig, err, sched>>

Starting == {e \in DOMAIN fu : fu[e].st = "new"}
Aborting == {e \in DOMAIN fu : Running(e) /\ bcast /\ ~fu[e].saw /\ Bug # "no_broadcast"}
Ending == {e \in DOMAIN fu : fu[e].st = "out"}
CtlEnabled == /\ ph = "run"
              /\ \/ Starting # {} \/ Aborting # {} \/ Ending # {}
                 \/ (cmd /\ ~sig) \/ (sig /\ ~latch) \/ DOMAIN fu = {}

\* ---------------------------------------------------------------- environment
Quiet == /\ ph = "run" /\ ~CtlEnabled /\ ~settled /\ settled' = TRUE
         /\ Emit(<<<<[t |-> "quiet"], 0>>>>)
         /\ Note(<<"quiet">>)
         /\ UNCHANGED <<fu, pop, bestF, nid, nseed, pushed, ca, cr, latch, bcast, cmd, sig, err, ph>>
EnvMayMove == ph = "run" /\ (EnvAnytime \/ settled)
OutSet == {<<"acc", v>> : v \in IF "acc" \in Outs THEN Vals ELSE {}}
          \cup {<<o, 0>> : o \in Outs \ {"acc"}}
Release(e, o) ==
  /\ EnvMayMove /\ Running(e)
  /\ N # <<>> \/ pushed < MaxCreated \/ latch
  /\ fu' = [fu EXCEPT ![e].st = "out", ![e].out = o]
  /\ settled' = IF EnvAnytime THEN FALSE ELSE settled
  /\ Note(<<"rel", e, o[1], o[2]>>)
  /\ UNCHANGED <<m, bad, pop, bestF, nid, nseed, pushed, ca, cr, latch, bcast, cmd, sig, err, ph>>
Terminate ==
  /\ EnvMayMove /\ Terms /\ ~cmd
  /\ cmd' = TRUE
  /\ Emit(<<<<[t |-> "term"], 0>>>>)
  /\ settled' = IF EnvAnytime THEN FALSE ELSE settled
  /\ Note(<<"term">>)
  /\ UNCHANGED <<fu, pop, bestF, nid, nseed, pushed, ca, cr, latch, bcast, sig, err, ph>>

Ctl == \/ \E e \in DOMAIN fu : PollStart(e) \/ PollAbort(e)
       \/ \E e \in DOMAIN fu : PollDone(e)
       \/ Forward \/ Latch \/ Drained \/ Hasty
Env == (\E e \in DOMAIN fu, o \in OutSet : Release(e, o)) \/ Terminate

INext == Ctl \/ Env \/ Quiet
ISpec == IInit /\ [][INext]_ivars /\ WF_ivars(Ctl \/ Quiet)

Allowed == bad = {}
\* the run settles or returns after every move of the environment
Settles == []<>(settled \/ ph = "ret")
=============================================================================
