--------------------------------- MODULE Run ---------------------------------
(* What a run of the optimizer may do, as seen at its interface: evaluations start, are told to abort,    *)
(* end, are recorded; a terminate request is delivered; the run returns.  The state is the record m; an   *)
(* event ev takes it to Upd(m, ev, r), and Bad(m, ev) is the set of properties that ev violates in m.      *)
(*   - RunImpl.tla  : the implementation-shaped design; TLC shows that Bad stays {} in every behaviour    *)
(*   - RunTrace.tla : recorded executions of the real code; TLC shows Bad = {} along each of them         *)
(* Parameter sets are kept by reference (r; ValOf(r) is the JSON), so that states stay small on traces.   *)
EXTENDS Domain, Sequences

CONSTANTS ValOf(_),
          Judged          \* the properties to decide (saves evaluating the costly ones for nothing)

NoCfg == [conc |-> 1, n |-> <<>>, target |-> <<>>, tn |-> <<>>, sample |-> 1, spec |-> <<"const">>, guess |-> <<>>]

Fresh(cfg) ==
  [ cfg |-> cfg,
    ph |-> "run",                \* idle, run, ret
    started |-> 0,               \* evaluations started
    infl |-> <<>>,               \* in flight: function  evaluation -> [id, seed, r, ab, hon]
    inds |-> <<>>,               \* individuals: function id -> [r, cnt, acc, sum]
    seeds |-> {},
    acc |-> 0, rej |-> 0,        \* ended evaluations, accepted / rejected
    late |-> 0,                  \* ... of which after the target was reached
    best |-> <<>>,               \* best completed individual: <<[v, n, rs]>>, rs: all candidates
    bestT |-> <<>>,              \* ... when the target was reached
    dropped |-> FALSE,           \* an evaluation was abandoned: neither ended by itself nor after an abort request
    unrec |-> {},                \* ended, not yet seen in the detailed report
    recs |-> 0, recA |-> 0, recR |-> 0,
    stop |-> "no",               \* no, target, term, fail, either (failure and request race)
    termp |-> FALSE,             \* a terminate request was delivered, the run has not settled since
    thit |-> FALSE,              \* target reached while draining after a terminate request
    err |-> [k |-> "none", e |-> 0],
    ret |-> [ok |-> FALSE, acc |-> 0, rej |-> 0] ]

Idle == [Fresh(NoCfg) EXCEPT !.ph = "idle"]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

BadGuess(m) == m.cfg.guess # <<>> /\ ~Accepts(m.cfg.spec, m.cfg.guess[1])
OddGuess(m) == m.cfg.guess # <<>> /\ OddKeys(m.cfg.spec, m.cfg.guess[1])     \* whether it is accepted is left open
FirstVal(m) == IF m.cfg.guess = <<>> THEN ToJ(Init(m.cfg.spec)) ELSE ToJ(FromJ(m.cfg.spec, m.cfg.guess[1]))

\* sample size 1: objective values are compared as numbers; larger samples use integer objectives, whose
\* means are compared by their sums (all samples have the same size); a report's n is its mean times the
\* sample size
LessVal(m, a, b) == IF m.cfg.sample = 1 THEN FLt(a.v, b.v) ELSE a.n < b.n
SameVal(m, a, b) == IF m.cfg.sample = 1 THEN FEq(a.v, b.v) ELSE a.n = b.n
Better(m, best, c) ==
  IF best = <<>> \/ LessVal(m, c, best[1]) THEN <<[v |-> c.v, n |-> c.n, rs |-> {c.r}]>>
  ELSE IF SameVal(m, c, best[1]) THEN <<[best[1] EXCEPT !.rs = @ \cup {c.r}]>>
  ELSE best
HitsTarget(m, best) ==
  /\ m.cfg.target # <<>> /\ best # <<>>
  /\ IF m.cfg.sample = 1 THEN FLeq(best[1].v, m.cfg.target[1]) ELSE best[1].n <= m.cfg.tn[1]

Done(m) == m.acc + m.rej
Budgeted(m) == m.cfg.n # <<>>
Exhausted(m) == Budgeted(m) /\ m.started = m.cfg.n[1] /\ Done(m) = m.cfg.n[1]
Min(a, b) == IF a < b THEN a ELSE b

(* ------------------------------------------------------------------ transitions ---------------------- *)
UpdStart(m, ev, r) ==
  LET ind == IF ev.id \in DOMAIN m.inds THEN [m.inds[ev.id] EXCEPT !.cnt = @ + 1]
             ELSE [r |-> r, cnt |-> 1, acc |-> 0, sum |-> 0]
  IN [m EXCEPT !.started = @ + 1,
               !.infl = Put(@, ev.e, [id |-> ev.id, seed |-> ev.seed, r |-> r, ab |-> FALSE, hon |-> ev.hon]),
               !.inds = Put(@, ev.id, ind),
               !.seeds = @ \cup {ev.seed}]

UpdDone(m, ev) ==
  IF ev.e \notin DOMAIN m.infl THEN m
  ELSE
  LET x == m.infl[ev.e]
      late == m.stop = "target"
      m1 == [m EXCEPT !.infl = Del(@, ev.e), !.late = IF late THEN @ + 1 ELSE @]
      rec(res) == [id |-> x.id, seed |-> x.seed, r |-> x.r, res |-> res]
  IN CASE ev.o = "acc" ->
            LET ind == [m.inds[x.id] EXCEPT !.acc = @ + 1, !.sum = @ + ev.n]
                whole == ind.acc = m.cfg.sample
                best == IF whole THEN Better(m, m.best, [v |-> ev.v, n |-> ind.sum, r |-> ind.r]) ELSE m.best
                hit == HitsTarget(m, best) /\ whole
            IN [m1 EXCEPT !.acc = @ + 1,
                          !.inds[x.id] = ind,
                          !.best = best,
                          !.unrec = @ \cup {rec(<<ev.v>>)},
                          !.thit = @ \/ (hit /\ m.stop \in {"term", "either"}),
                          !.bestT = IF hit /\ m.stop = "no" THEN best ELSE @,
                          !.stop = IF hit /\ m.stop = "no" THEN "target" ELSE @]
       [] ev.o = "rej" -> [m1 EXCEPT !.rej = @ + 1, !.unrec = @ \cup {rec(<<>>)}]
       [] OTHER -> [m1 EXCEPT !.err = IF m.stop = "no" THEN [k |-> ev.o, e |-> ev.e] ELSE @,
                              !.stop = IF m.stop = "no" THEN (IF m.termp THEN "either" ELSE "fail") ELSE @]

Matches(m, ev) == {x \in m.unrec : /\ x.id = ev.id /\ x.seed = ev.seed
                                   /\ Len(x.res) = Len(ev.res)
                                   /\ x.res = <<>> \/ x.res = ev.res
                                   /\ JSame(ValOf(x.r), ev.val)}

UpdRec(m, ev) ==
  LET ms == Matches(m, ev)
      m1 == [m EXCEPT !.recs = @ + 1,
                      !.recA = IF ev.res = <<>> THEN @ ELSE @ + 1,
                      !.recR = IF ev.res = <<>> THEN @ + 1 ELSE @]
  IN IF ms = {} THEN m1 ELSE [m1 EXCEPT !.unrec = @ \ {CHOOSE x \in ms : TRUE}]

Upd(m, ev, r) ==
  CASE ev.t = "run" -> Fresh(ev.cfg)
    [] ev.t = "start" -> UpdStart(m, ev, r)
    [] ev.t = "abort" -> IF ev.e \in DOMAIN m.infl THEN [m EXCEPT !.infl[ev.e].ab = TRUE] ELSE m
    [] ev.t = "done" -> UpdDone(m, ev)
    [] ev.t = "drop" -> [m EXCEPT !.infl = Del(@, ev.e), !.dropped = TRUE]
    [] ev.t = "rec" -> UpdRec(m, ev)
    [] ev.t = "term" -> [m EXCEPT !.termp = @ \/ m.stop = "no"]
    [] ev.t = "quiet" -> [m EXCEPT !.stop = IF m.termp /\ @ = "no" THEN "term" ELSE @, !.termp = FALSE]
    [] ev.t = "ret" -> [m EXCEPT !.ph = "ret", !.ret = [ok |-> ev.ok, acc |-> ev.acc, rej |-> ev.rej]]
    [] ev.t = "end" -> [Idle EXCEPT !.ph = "idle"]
    [] OTHER -> m

(* ------------------------------------------------------------------ properties ---------------------- *)
If(c, ps) == IF c THEN ps ELSE {}

BadStart(m, ev, r) ==
  LET running == {m.infl[e].id : e \in DOMAIN m.infl}
      known == ev.id \in DOMAIN m.inds
  IN If("C01" \in Judged /\ ~Conforms(m.cfg.spec, ev.val), {"C01"})
     \cup If(Budgeted(m) /\ m.started + 1 > m.cfg.n[1], {"C03"})
     \cup If(m.stop \in {"target", "term"} \/ m.ph # "run", {"C04"})
     \cup If(m.stop = "fail", {"C06"})
     \cup If(Cardinality(DOMAIN m.infl) + 1 > m.cfg.conc \/ ev.id \in running \/ m.ph # "run", {"C05"})
     \cup If(ev.seed \in m.seeds, {"C08"})
     \cup If(known /\ m.inds[ev.id].cnt + 1 > m.cfg.sample, {"C08"})
     \cup If(known /\ ~JSame(ValOf(m.inds[ev.id].r), ev.val), {"C08"})
     \cup If(m.started = 0 /\ ~BadGuess(m) /\ ~OddGuess(m) /\ ~JSame(ev.val, FirstVal(m)), {"C08"})
     \cup If(BadGuess(m) /\ ~OddGuess(m), {"C11"})

\* the run has nothing to do before the environment moves
BadQuiet(m) ==
  LET fl == DOMAIN m.infl
      blocked == {e \in fl : ~m.infl[e].ab}
  IN CASE m.stop = "no" /\ ~m.termp ->
            If(Cardinality(fl) # IF Budgeted(m) THEN Min(m.cfg.conc, m.cfg.n[1] - Done(m)) ELSE m.cfg.conc, {"C05"})
            \cup If(fl = {}, {"C02", "C03", "C04", "C15"})
       [] m.stop = "target" -> If(\A e \in fl : m.infl[e].hon, {"C04", "C15"})
       [] m.stop = "fail" -> If(blocked # {}, {"C06"}) \cup If(fl = {}, {"C06", "C15"})
       [] m.stop = "either" -> If(blocked # {}, {"C04", "C06"}) \cup If(fl = {}, {"C04", "C06", "C15"})
       [] OTHER -> If(blocked # {}, {"C04"}) \cup If(fl = {}, {"C02", "C04", "C15"})

Unit(x) == x[1] = "f" /\ FLeq(FZero, x[2]) /\ FLeq(x[2], FOne)
PosFinite(x) == x[1] = "f" /\ FLt(FZero, x[2]) /\ FLeq(x[2], FMax)

BadRec(m, ev) ==
  If(Matches(m, ev) = {}, {"C14"})
  \cup If(ev.meta # <<>> /\ ~(Unit(ev.meta[1]) /\ Unit(ev.meta[2]) /\ Unit(ev.meta[3]) /\ PosFinite(ev.meta[4])), {"C14"})

\* returning now leaves or left evaluations behind that have not ended
Abandons(m) == DOMAIN m.infl # {} \/ m.dropped

\* the reported best individual is b
Reports(m, b, ev) ==
  /\ b # <<>>
  /\ IF m.cfg.sample = 1 THEN FEq(ev.v, b[1].v) ELSE ev.isint /\ ev.n = b[1].n
  /\ \E r \in b[1].rs : JSame(ValOf(r), ev.val)

BadRetOk(m, ev) ==
  If(~Reports(m, m.best, ev) /\ ~(m.stop = "target" /\ Reports(m, m.bestT, ev)), {"C02"})
  \cup If("C01" \in Judged /\ ~Conforms(m.cfg.spec, ev.val), {"C01"})
  \cup If(m.stop = "no" /\ ~m.termp /\ ~Exhausted(m), {"C03", "C05"} \cup If(m.cfg.target # <<>>, {"C04"}))
  \cup If(m.stop = "no" /\ Exhausted(m) /\ ev.acc + ev.rej # m.cfg.n[1], {"C03"})
  \cup If(m.stop = "target" /\ ~(IF m.cfg.sample = 1 THEN FLeq(ev.v, m.cfg.target[1])
                                                     ELSE ev.isint /\ ev.n <= m.cfg.tn[1]), {"C04"})
  \cup If(m.stop = "term" /\ ~m.thit /\ Abandons(m), {"C04"})
  \cup If(m.stop = "term" /\ ~Reports(m, m.best, ev), {"C04"})
  \cup If(m.stop = "fail", {"C06"})
  \cup If(ev.acc + ev.rej < Done(m) - m.late \/ ev.acc + ev.rej > Done(m), {"C14"})
  \cup If(m.late = 0 /\ (ev.acc # m.acc \/ ev.rej # m.rej), {"C14"})
  \cup If(BadGuess(m) /\ ~OddGuess(m), {"C11"})

BadRetErr(m, ev) ==
  IF OddGuess(m) /\ m.started = 0 THEN {}
  ELSE IF BadGuess(m) THEN If(ev.err # "other" \/ m.started > 0, {"C11"})
  ELSE
  CASE m.stop = "fail" -> If(ev.err # m.err.k \/ (ev.err = "fail" /\ ev.e # m.err.e), {"C06"})
                          \cup If(Abandons(m), {"C06"})
    [] m.stop = "either" -> If(~((ev.err = m.err.k /\ (ev.err = "fail" => ev.e = m.err.e))
                                 \/ (ev.err = "noind" /\ m.best = <<>>)), {"C04", "C06"})
                            \cup If(Abandons(m) /\ ~m.thit, {"C04", "C06"})
    [] m.stop = "target" -> {"C02", "C04"}
    [] m.stop = "term" -> If(ev.err # "noind" \/ m.best # <<>>, {"C02", "C04"})
                          \cup If(Abandons(m), {"C04"})
    [] OTHER -> If(ev.err # "noind", {"C02", "C03", "C06", "C11"})
                \cup If(m.best # <<>>, {"C02"})
                \cup If(~m.termp /\ ~Exhausted(m), {"C03", "C05"})

BadEnd(m) ==
  If(m.ret.ok /\ (m.recA # m.ret.acc \/ m.recR # m.ret.rej), {"C14"})
  \cup If(m.stop # "target" /\ ~m.thit /\ m.unrec # {}, {"C14"})

Crash == {"C01", "C02", "C03", "C04", "C05", "C06", "C14", "C15"}

Bad(m, ev) ==
  CASE ev.t = "start" -> BadStart(m, ev, 0)
    [] ev.t = "quiet" -> IF m.ph = "run" THEN BadQuiet(m) ELSE {}
    [] ev.t = "rec" -> BadRec(m, ev)
    [] ev.t = "ret" -> IF ev.ok THEN BadRetOk(m, ev) ELSE BadRetErr(m, ev)
    [] ev.t = "end" -> BadEnd(m)
    [] ev.t \in {"panic", "hang"} -> Crash
    [] OTHER -> {}
=============================================================================
