------------------------------ MODULE OpsTrace ------------------------------
(* Judges recorded applications of cambrian's pure parts, one per step.  A "spec" line sets the parameter  *)
(* space of the lines behind it.  Rejected lines are reported and counted, the rest is judged all the same. *)
EXTENDS Variation, SpecDoc, Battery, Json
CONSTANTS TraceFile, PROP
VARIABLES l, cur
Trace == ndJsonDeserialize(TraceFile)

\* is the observation r of reading j as a guess what the specification says?
GuessOk(s, j, r) ==
  IF Accepts(s, j)
  THEN /\ r[1] = "ok"
       /\ VEq(r[2], FromJ(s, j))
       /\ JSame(r[3], ToJ(r[2]))
  ELSE r[1] = "err" \/ (OddKeys(s, j) /\ r[1] = "ok" /\ VConforms(s, r[2]))

CodecOk(s, c) ==
  /\ Conforms(s, c.j)
  /\ JSame(ToJ(c.v), c.j)
  /\ c.r[1] = "ok"
  /\ JSame(c.r[3], c.j)
  /\ ~Ambiguous(s) => VEq(c.r[2], c.v)

\* a guess given to the tool with a budget of one evaluation
CliGuessOk(s, c) ==
  IF c.j # <<"none">> /\ Accepts(s, c.j)
  THEN c.rc = 0 /\ c.n = 1 /\ JSame(c.first, ToJ(FromJ(s, c.j))) /\ JSame(c.out, c.first)
  ELSE \/ c.rc # 0 /\ c.n = 0 /\ c.out = <<"none">> /\ c.msg > 0
       \/ /\ c.j # <<"none">> /\ OddKeys(s, c.j)
          /\ c.rc = 0 /\ c.n = 1 /\ Conforms(s, c.first) /\ JSame(c.out, c.first)

Ok(s, c) ==
  CASE c.t = "panic" -> FALSE
    [] c.t = "mut" -> CASE PROP = "C01" -> VConforms(s, c.w)
                        [] PROP = "C13" -> VConforms(s, c.w) /\ MutOk(s, c.v, c.w, c.p, c.pin)
                        [] PROP = "C17" -> c.p = "one" => Varied(s, c.v, c.w)
                        [] OTHER -> TRUE
    [] c.t = "x" -> CASE PROP = "C01" -> VConforms(s, c.o)
                      [] PROP = "C12" -> RecombinationOk(s, c.ps, c.o)
                      [] OTHER -> TRUE
    [] c.t = "muts" -> \A i \in DOMAIN c.outs :
                         CASE PROP = "C01" -> VConforms(s, c.outs[i])
                           [] PROP = "C13" -> VConforms(s, c.outs[i]) /\ MutOk(s, c.v, c.outs[i], c.p, c.pin)
                           [] PROP = "C17" -> c.p = "one" => Varied(s, c.v, c.outs[i])
                           [] OTHER -> TRUE
    [] c.t = "xs" -> \A i \in DOMAIN c.outs :
                       CASE PROP = "C01" -> VConforms(s, c.outs[i])
                         [] PROP = "C12" -> RecombinationOk(s, c.ps, c.outs[i])
                         [] OTHER -> TRUE
    [] c.t = "moves" -> Moves(s, c.v, c.outs) /\ \A i \in DOMAIN c.outs : Varied(s, c.v, c.outs[i])
    [] c.t = "mix" -> Mixes(s, c.ps, c.outs)
    [] c.t = "sel" -> Favours(c.c, c.press)
    [] c.t = "codec" -> CodecOk(s, c)
    [] c.t = "guess" -> GuessOk(s, c.j, c.r)
    [] c.t = "cliguess" -> CliGuessOk(s, c)
    [] c.t = "init" -> VEq(c.v, Init(s))
    [] OTHER -> FALSE

\* a document given to the tool with a budget of one evaluation
CliDocOk(c) ==
  LET p == Parse(c.d, NoDefs)
  IN IF IsBad(p) THEN c.rc # 0 /\ c.n = 0 /\ c.out = <<"none">> /\ c.msg > 0
     ELSE c.rc = 0 /\ c.n = 1 /\ Conforms(p, c.out)

Judged(i) == CASE Trace[i].t = "doc" -> DocOk(Trace[i].d, Trace[i].r)
               [] Trace[i].t = "clidoc" -> CliDocOk(Trace[i])
               [] Trace[i].t = "battery" -> Solves(Trace[i])
               [] OTHER -> Ok(Trace[cur].s, Trace[i])

OInit == l = 1 /\ cur = 0
ONext == /\ l <= Len(Trace)
         /\ IF Trace[l].t = "spec" THEN cur' = l
            ELSE /\ cur' = cur
                 /\ IF Judged(l) THEN TRUE ELSE PrintT(<<"BADCASE", l>>)
         /\ l' = l + 1
OSpec == OInit /\ [][ONext]_<<l, cur>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
