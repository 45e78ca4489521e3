-------------------------------- MODULE Long --------------------------------
(* What Run.tla says about a whole run, for runs too long for an event-by-event trace: the log of all       *)
(* seeds, and per individual [evaluations, different parameter sets seen, accepted results, their sum].     *)
EXTENDS Domain, Sequences, Json
CONSTANTS TraceFile, PROP
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

Best(inds, sample) ==
  LET whole == {i \in DOMAIN inds : inds[i][3] = sample}
  IN [any |-> whole # {}, sums |-> {inds[i][4] : i \in whole}]

Violated(c) ==
  LET inds == c.inds
      b == Best(inds, c.sample)
      done == Len(c.seeds)
      okret == c.ret.k = "ok"
  IN (IF Cardinality(Range(c.seeds)) # done THEN {"C08"} ELSE {})
     \cup (IF \E i \in DOMAIN inds : inds[i][1] > c.sample \/ inds[i][2] # 1 THEN {"C08"} ELSE {})
     \cup (IF ~JSame(c.first, ToJ(Init(c.spec))) THEN {"C08"} ELSE {})
     \cup (IF done # c.n THEN {"C03"} ELSE {})
     \cup (IF c.max > c.conc \/ c.twice > 0 THEN {"C05"} ELSE {})
     \cup (IF okret /\ c.ret.acc + c.ret.rej # c.n THEN {"C03"} ELSE {})
     \cup (IF okret /\ (c.ret.rej # c.rejected \/ c.ret.acc # done - c.rejected) THEN {"C14"} ELSE {})
     \cup (IF c.ret.k = "panic" THEN {"C15"} ELSE {})
     \cup (IF okret # b.any THEN {"C02"} ELSE {})
     \cup (IF okret /\ b.any /\ ~(/\ c.ret.exact
                                  /\ \A s \in b.sums : c.ret.n <= s
                                  /\ \E i \in Range(c.ret.who) : inds[i][3] = c.sample /\ inds[i][4] = c.ret.n)
           THEN {"C02"} ELSE {})

LInit == l = 1
LNext == /\ l <= Len(Trace)
         /\ IF PROP \in Violated(Trace[l]) THEN PrintT(<<"REJECTED", l>>) ELSE TRUE
         /\ l' = l + 1
LSpec == LInit /\ [][LNext]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
