------------------------------ MODULE Battery ------------------------------
(* C17: problems with a known optimum.  The objective is the distance to the optimum; a run of the stated *)
(* budget from the stated start must divide the initial distance by the stated factor, or reach it.       *)
EXTENDS Integers, Sequences, TLC

\* shape   "reals" (dim reals, spec scale 10^exp, start 10^exp off the optimum, unbounded)
\*         "bound" (dim reals, optimum on the lower bound)    "mixed" (reals of different scales)
\*         "grid" (dim bounded integers)   "ints" (dim unbounded integers)   "onemax" (dim booleans)
\*         "map" (a resizable map of target size dim, starting at size exp)   "mapvals" (and element values)
\*         "choice" (dim nested variants / enums)   "opts" (dim optionals)
\* factor  0: the optimum is reached
P(name, shape, dim, exp, budget, factor) ==
  [name |-> name, shape |-> shape, dim |-> dim, exp |-> exp, budget |-> budget, factor |-> factor]
Problems ==
  << P("sphere1", "reals", 1, 0, 400, 5000), P("sphere2", "reals", 2, 0, 600, 3000), P("sphere5", "reals", 5, 0, 1000, 1000),
     P("sphere10", "reals", 10, 0, 1500, 200), P("sphere3e3", "reals", 3, 3, 800, 3000), P("sphere3e-3", "reals", 3, -3, 800, 3000),
     P("scales", "mixed", 4, 0, 1000, 30000), P("lower bound", "bound", 3, 0, 400, 0), P("integer grid", "grid", 3, 0, 1000, 0),
     P("integers", "ints", 2, 0, 800, 10000), P("onemax8", "onemax", 8, 0, 400, 0), P("onemax20", "onemax", 20, 0, 3000, 0),
     P("map grows", "map", 9, 2, 400, 0), P("map shrinks", "map", 1, 9, 400, 0), P("map values", "mapvals", 4, 2, 1500, 1000),
     P("choice", "choice", 4, 0, 800, 0), P("optionals", "opts", 6, 0, 800, 0) >>

\* Every problem comes in many variants (other optima, starts, completion orders): the search is randomised in
\* effect, so four in five of them have to be solved, and all of them improved.
\* zeros[i]: variant i reached the optimum; ratios[i]: floor(initial / final distance)
Solved(p, c, i) == c.zeros[i] \/ (p.factor > 0 /\ c.ratios[i] >= p.factor)
Solves(c) ==
  \E k \in DOMAIN Problems :
    LET p == Problems[k]
        n == Len(c.zeros)
    IN /\ p.name = c.name
       /\ \A i \in 1..n : c.ratios[i] >= 2
       /\ 5 * Len(SelectSeq([i \in 1..n |-> i], LAMBDA i : Solved(p, c, i))) >= 4 * n
=============================================================================
