--------------------------------- MODULE Cli ---------------------------------
(* The command-line tool as a function of its arguments, its files and what its objective-function          *)
(* processes do (C16; C15: it always ends, without a panic).  A case is one execution with one evaluation   *)
(* at a time: what was asked (opts, dir, guess, prog, args), what the k-th objective-function process does   *)
(* (outs, cyclic), and what was observed (obs).  TLC judges every recorded case.                             *)
EXTENDS Domain, Json
CONSTANTS TraceFile, PROP
VARIABLE l
Trace == ndJsonDeserialize(TraceFile)

\* ---------------------------------------------------------------- options
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits
Zero(s) == AllDigits(s) /\ \A i \in 1..Len(s) : SubSeq(s, i, i) = "0"
Count(s) == IF ~AllDigits(s) \/ Len(s) > 25 THEN "bad" ELSE IF Len(s) <= 9 THEN "ok" ELSE "open"
GoodDur == {"10s", "1m", "500ms", "2 minutes", "1h30m", "1.5s", "3600"}
BadDur == {"", "abc", "10 parsecs", "-5s", "s", "ten seconds", "1,5x"}
GoodNum == {"1.5", "-3", "0", "1e3", ".5", "-1e-3", "+2", "-0.0"}
BadNum == {"abc", "", "1,5", "0x10", "1.5.2", "1e", "- 1"}
\* an option is [n |-> name, a |-> text]
OptState(o) ==
  CASE o.n = "n" -> Count(o.a)
    [] o.n \in {"conc", "sample"} -> IF Zero(o.a) THEN "bad" ELSE Count(o.a)
    [] o.n \in {"after", "k"} -> IF o.a \in GoodDur THEN "ok" ELSE IF o.a \in BadDur THEN "bad" ELSE "open"
    [] o.n = "t" -> IF o.a \in GoodNum \cup {"target"} THEN "ok" ELSE IF o.a \in BadNum THEN "bad" ELSE "open"
    [] o.n = "bogus" -> "bad"
    [] OTHER -> "ok"
OptBad(c) == \E i \in DOMAIN c.opts : OptState(c.opts[i]) = "bad"
OptOpen(c) == \E i \in DOMAIN c.opts : OptState(c.opts[i]) = "open"

DirExists(c) == c.dir \in {"empty", "full", "file", "link"}
GuessBad(c) == c.guess # <<>> /\ (c.guess[1] = "bad" \/ ~Accepts(c.spec, c.guess[2]))
GuessOpen(c) == c.guess # <<>> /\ c.guess[1] # "bad" /\ OddKeys(c.spec, c.guess[2])
Refused(c) == OptBad(c) \/ c.specfile # "ok" \/ ~c.hasprog \/ GuessBad(c) \/ (DirExists(c) /\ ~c.force)

\* ---------------------------------------------------------------- what a child said
\* out: [exit, form ("doc", "raw": no JSON text, "any": unknown), doc]
Class(o) ==
  IF o.exit # 0 THEN <<"fail">>
  ELSE IF o.form = "raw" THEN <<"fail">>
  ELSE IF o.form = "any" THEN <<"any">>
  ELSE IF o.doc[1] # "o" THEN <<"fail">>
  ELSE IF DOMAIN o.doc[2] = {} THEN <<"rej">>
  ELSE IF DOMAIN o.doc[2] # {"objFuncVal"} THEN <<"fail">>
  ELSE LET v == o.doc[2].objFuncVal
       IN CASE v[1] = "z" -> <<"rej">>
            [] v[1] = "i" -> <<"acc", v[3]>>
            [] v[1] \in {"u", "f"} -> <<"acc", v[2]>>
            [] OTHER -> <<"fail">>

\* one evaluation after the other: how many there are, how it ends
RECURSIVE Play(_, _, _, _, _)
Play(c, k, best, acc, rej) ==
  LET stop(why) == [count |-> k, end |-> why, best |-> best, acc |-> acc, rej |-> rej]
  IN IF c.n # <<>> /\ k >= c.n[1] THEN stop(IF best = <<>> THEN "noind" ELSE "ok")
     ELSE LET r == Class(c.outs[(k % Len(c.outs)) + 1])
              b == IF best = <<>> \/ FLt(r[2], best[1]) THEN <<r[2], {k + 1}>>
                   ELSE IF FEq(r[2], best[1]) THEN <<best[1], best[2] \cup {k + 1}>> ELSE best
          IN CASE r[1] = "fail" -> [stop("fail") EXCEPT !.count = k + 1]
               [] r[1] = "any" -> [stop("any") EXCEPT !.count = k + 1]
               [] r[1] = "rej" -> Play(c, k + 1, best, acc, rej + 1)
               [] OTHER -> IF c.target # <<>> /\ FLeq(b[1], c.target[1])
                           THEN [count |-> k + 1, end |-> "ok", best |-> b, acc |-> acc + 1, rej |-> rej]
                           ELSE Play(c, k + 1, b, acc + 1, rej)

\* ---------------------------------------------------------------- judgement
\* every process was started as <program> <user args...> <JSON parameters> <seed>
KidsOk(c, kids) ==
  /\ \A i \in DOMAIN kids : /\ kids[i].args = c.args
                            /\ Conforms(c.spec, kids[i].val)
                            /\ AllDigits(kids[i].seed)
  /\ \A i, j \in DOMAIN kids : i # j => kids[i].seed # kids[j].seed
  /\ kids # <<>> => JSame(kids[1].val, IF c.guess = <<>> THEN ToJ(Init(c.spec)) ELSE ToJ(FromJ(c.spec, c.guess[2])))

ErrorEnd(c) == c.obs.rc # 0 /\ c.obs.err
HasDir(c) == c.dir # "none"

RefusedOk(c) == /\ ErrorEnd(c)
                /\ c.obs.kids = <<>>
                /\ DirExists(c) /\ ~c.force => c.obs.kept

Judge16(c) ==
  LET o == c.obs
      p == Play(c, 0, <<>>, 0, 0)
  IN \/ OptOpen(c) \/ GuessOpen(c)
     \/ IF Refused(c) THEN RefusedOk(c)
        ELSE IF c.prog # "ok" THEN IF c.n = <<0>> THEN ErrorEnd(c) ELSE ErrorEnd(c) /\ o.kids = <<>>
        ELSE /\ KidsOk(c, o.kids)
             /\ p.end # "any" => Len(o.kids) = p.count
             /\ CASE p.end = "any" -> TRUE
                  [] p.end = "noind" -> ErrorEnd(c)
                  [] p.end = "fail" -> ErrorEnd(c) /\ (HasDir(c) => o.argfile /\ o.outfile /\ o.errfile)
                  [] OTHER -> /\ o.rc = 0
                              /\ o.lines = 1
                              /\ Conforms(c.spec, o.val)
                              /\ \E i \in p.best[2] : JSame(o.val, o.kids[i].val)
                              /\ HasDir(c) => o.files /\ o.sum = <<p.best[1], p.acc, p.rej>>

\* whatever a child prints: an end, no panic
Judge15(c) == ~c.obs.hang /\ ~c.obs.panic

Judge(c) == IF PROP = "C15" THEN Judge15(c) ELSE Judge15(c) /\ Judge16(c)

WInit == l = 1
WNext == /\ l <= Len(Trace)
         /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT(<<"BADCASE", l>>)
         /\ l' = l + 1
WSpec == WInit /\ [][WNext]_l
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
