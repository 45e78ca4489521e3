----------------------------- MODULE Variation -----------------------------
(* The two variation operators of cambrian as relations between inputs and outputs: recombination (C12),   *)
(* mutation (C13), and what it means that they really vary things (C17).                                   *)
EXTENDS Domain

(* ------------------------------------------------------------------ recombination (C12) ------------- *)
\* ps: the parents (sequence of values) present at this position; o: the offspring's part at this position
RECURSIVE Mixed(_, _, _)
Mixed(s, ps, o) ==
  CASE s[1] \in {"real", "int", "bool", "enum"} -> \E i \in DOMAIN ps : VEq(o, ps[i])
    [] s[1] = "const" -> o[1] = "const"
    [] s[1] = "sub" -> /\ o[1] = "sub"
                       /\ DOMAIN o[2] = DOMAIN s[2]
                       /\ \A k \in DOMAIN s[2] : Mixed(s[2][k], [i \in DOMAIN ps |-> ps[i][2][k]], o[2][k])
    [] s[1] = "array" -> /\ o[1] = "array"
                         /\ Len(o[2]) = s[3]
                         /\ \A e \in 1..s[3] : Mixed(s[2], [i \in DOMAIN ps |-> ps[i][2][e]], o[2][e])
    [] s[1] = "anon" -> /\ o[1] = "anon"
                        /\ \A k \in DOMAIN o[2] :
                             LET have == SelectSeq(ps, LAMBDA p : k \in DOMAIN p[2])
                             IN have # <<>> /\ Mixed(s[2], [i \in DOMAIN have |-> have[i][2][k]], o[2][k])
    [] s[1] = "variant" -> /\ o[1] = "variant"
                           /\ LET have == SelectSeq(ps, LAMBDA p : p[2] = o[2])
                              IN /\ have # <<>>
                                 /\ Mixed(s[2][o[2]], [i \in DOMAIN have |-> have[i][3]], o[3])
    [] s[1] = "optional" -> /\ o[1] = "opt"
                            /\ IF o[2] = <<>> THEN \E i \in DOMAIN ps : ps[i][2] = <<>>
                               ELSE LET have == SelectSeq(ps, LAMBDA p : p[2] # <<>>)
                                    IN /\ have # <<>>
                                       /\ Mixed(s[2], [i \in DOMAIN have |-> have[i][2][1]], o[2][1])

AllSame(ps) == \A i \in DOMAIN ps : VEq(ps[1], ps[i])

RecombinationOk(s, ps, o) ==
  /\ Mixed(s, ps, o)
  /\ AllSame(ps) => VEq(o, ps[1])

(* ------------------------------------------------------------------ mutation (C13) ------------------ *)
\* numbers a vanishing step cannot move: |x| >= 1e-100
TinyPos == <<2804479, 1668900, 918832>>
TinyNeg == <<1389824, 428251, 1178319>>
Immovable(x) == FLeq(TinyPos, x) \/ FLeq(x, TinyNeg)
\* integers of at most 2^50: exactly representable as f64
IntLo == <<2096896, 0, 0>>
IntHi == <<2097408, 0, 0>>
SmallInt(x) == ILeq(IntLo, x) /\ ILeq(x, IntHi)

\* p: "zero", "one" or "some" (the mutation probability); pinned: steps are too small to move any number
RECURSIVE MutOk(_, _, _, _, _)
MutOk(s, v, w, p, pinned) ==
  CASE s[1] = "real" -> /\ w[1] = "real" /\ FIn(w[2], s[4], s[5])
                        /\ p = "zero" => FEq(w[2], v[2])
                        /\ (pinned /\ Immovable(v[2])) => FEq(w[2], v[2])
    [] s[1] = "int" -> /\ w[1] = "int" /\ IIn(w[2], s[4], s[5])
                       /\ (p = "zero" \/ (pinned /\ SmallInt(v[2]))) => w[2] = v[2]
    [] s[1] = "bool" -> /\ w[1] = "bool"
                        /\ p = "zero" => w[2] = v[2]
    [] s[1] = "enum" -> /\ w[1] = "enum" /\ w[2] \in Range(s[2])
                        /\ p = "zero" => w[2] = v[2]
    [] s[1] = "const" -> w[1] = "const"
    [] s[1] = "sub" -> /\ w[1] = "sub"
                       /\ DOMAIN w[2] = DOMAIN s[2]
                       /\ \A k \in DOMAIN s[2] : MutOk(s[2][k], v[2][k], w[2][k], p, pinned)
    [] s[1] = "array" -> /\ w[1] = "array"
                         /\ Len(w[2]) = s[3]
                         /\ \A i \in 1..s[3] : MutOk(s[2], v[2][i], w[2][i], p, pinned)
    [] s[1] = "anon" ->
         LET D == DOMAIN v[2]
             E == DOMAIN w[2]
             new == E \ D
             gone == D \ E
         IN /\ w[1] = "anon"
            /\ SizeOk(Cardinality(E), s[4], s[5])
            /\ Cardinality(new) + Cardinality(gone) <= 1
            /\ p = "zero" => E = D
            /\ p = "one" => E # D       \* min < max, so that no map is pinned at both ends
            /\ \A k \in D \cap E : MutOk(s[2], v[2][k], w[2][k], p, pinned)
            \* the statement leaves open what an added element starts from: an existing one or the initial value
            /\ \A k \in new : \/ MutOk(s[2], Init(s[2]), w[2][k], "some", pinned)
                              \/ \E d \in D : MutOk(s[2], v[2][d], w[2][k], "some", pinned)
    [] s[1] = "variant" ->
         /\ w[1] = "variant" /\ w[2] \in DOMAIN s[2]
         /\ p = "zero" => w[2] = v[2]
         /\ IF w[2] = v[2] THEN MutOk(s[2][w[2]], v[3], w[3], p, pinned)
            ELSE MutOk(s[2][w[2]], Init(s[2][w[2]]), w[3], p, pinned)
    [] s[1] = "optional" ->
         /\ w[1] = "opt"
         /\ p = "zero" => Len(w[2]) = Len(v[2])
         /\ w[2] # <<>> => IF v[2] # <<>> THEN MutOk(s[2], v[2][1], w[2][1], p, pinned)
                           ELSE MutOk(s[2], Init(s[2]), w[2][1], p, pinned)

(* ------------------------------------------------------------------ liveness of mutation (C17) ------ *)
\* one mutation with probability 1: everything with a finite set of choices has changed
RECURSIVE Varied(_, _, _)
Varied(s, v, w) ==
  CASE s[1] \in {"bool", "enum"} -> w[2] # v[2]
    [] s[1] = "sub" -> \A k \in DOMAIN s[2] : Varied(s[2][k], v[2][k], w[2][k])
    [] s[1] = "array" -> \A i \in 1..s[3] : Varied(s[2], v[2][i], w[2][i])
    [] s[1] = "anon" -> /\ Cardinality(DOMAIN v[2]) # Cardinality(DOMAIN w[2])
                        /\ \A k \in DOMAIN v[2] \cap DOMAIN w[2] : Varied(s[2], v[2][k], w[2][k])
    [] s[1] = "variant" -> w[2] # v[2]
    [] s[1] = "optional" -> Len(w[2]) # Len(v[2])
    [] OTHER -> TRUE

\* outs: the results of many mutations of v with probability 1 and step scale 1.  Every number of moderate size
\* (below 2^40) and spec scale >= 1 moves within a few attempts: in at least a tenth of many.
MinAttempts == 120
Moderate(s, x) == IF s[1] = "int" THEN ILeq(<<2097151, 1572864, 0>>, x) /\ ILeq(x, <<2097152, 524288, 0>>)
                  ELSE FLeq(<<1008639, 2097151, 2097151>>, x) /\ FLeq(x, <<3185664, 0, 0>>)
ScaleOk(s) == FLeq(FOne, s[3]) /\ FLeq(s[3], <<3185664, 0, 0>>)
RECURSIVE Moves(_, _, _)
Moves(s, v, outs) ==
  Len(outs) >= MinAttempts =>
  CASE s[1] \in {"real", "int"} -> (ScaleOk(s) /\ Moderate(s, v[2])) => 10 * Len(SelectSeq(outs, LAMBDA o : o[2] # v[2])) >= Len(outs)
    [] s[1] = "sub" -> \A k \in DOMAIN s[2] : Moves(s[2][k], v[2][k], [i \in DOMAIN outs |-> outs[i][2][k]])
    [] s[1] = "array" -> \A e \in 1..s[3] : Moves(s[2], v[2][e], [i \in DOMAIN outs |-> outs[i][2][e]])
    [] s[1] = "anon" -> \A k \in DOMAIN v[2] :
                             LET kept == SelectSeq(outs, LAMBDA o : k \in DOMAIN o[2])
                             IN Moves(s[2], v[2][k], [i \in DOMAIN kept |-> kept[i][2][k]])
    [] OTHER -> TRUE

(* ------------------------------------------------------------------ recombination really mixes (C17) - *)
IsLeaf(s) == s[1] \in {"real", "int", "bool", "enum"}
\* with crossover probability 1 the parts at two positions are picked independently: if some pair of parts occurs
\* in no parent, some offspring (of very many) is equal to no parent
RECURSIVE CanMix(_, _)
FreePair(K, Sp(_), ps, At(_, _)) ==
  \E k1 \in K : IsLeaf(Sp(k1)) /\ \E k2 \in K \ {k1} : IsLeaf(Sp(k2)) /\
    \E i \in DOMAIN ps, j \in DOMAIN ps :
      \A p \in DOMAIN ps : ~(VEq(At(p, k1), At(i, k1)) /\ VEq(At(p, k2), At(j, k2)))
CanMix(s, ps) ==
  CASE s[1] = "sub" -> LET At(p, k) == ps[p][2][k]  Sp(k) == s[2][k]
                       IN \/ FreePair(DOMAIN s[2], Sp, ps, At)
                          \/ \E k \in DOMAIN s[2] : CanMix(s[2][k], [i \in DOMAIN ps |-> ps[i][2][k]])
    [] s[1] = "array" -> LET At(p, k) == ps[p][2][k]  Sp(k) == s[2]
                         IN \/ FreePair(1..s[3], Sp, ps, At)
                            \/ \E k \in 1..s[3] : CanMix(s[2], [i \in DOMAIN ps |-> ps[i][2][k]])
    [] s[1] = "anon" -> LET At(p, k) == ps[p][2][k]  Sp(k) == s[2]
                            D(p) == DOMAIN ps[p][2]
                        IN \/ /\ \A p \in DOMAIN ps : D(p) = D(1)
                              /\ \/ FreePair(D(1), Sp, ps, At)
                                 \/ \E k \in D(1) : CanMix(s[2], [i \in DOMAIN ps |-> ps[i][2][k]])
                           \/ /\ Len(ps) = 2
                              /\ D(1) \cap D(2) = {}
                              /\ Cardinality(D(1)) >= 2 /\ Cardinality(D(2)) >= 2
    [] s[1] = "variant" -> /\ \A p \in DOMAIN ps : ps[p][2] = ps[1][2]
                           /\ CanMix(s[2][ps[1][2]], [i \in DOMAIN ps |-> ps[i][3]])
    [] s[1] = "optional" -> /\ \A p \in DOMAIN ps : ps[p][2] # <<>>
                            /\ CanMix(s[2], [i \in DOMAIN ps |-> ps[i][2][1]])
    [] OTHER -> FALSE
Mixes(s, ps, outs) == CanMix(s, ps) => \E o \in DOMAIN outs : \A i \in DOMAIN ps : ~VEq(outs[o], ps[i])

\* c: how often each rank was picked.  A later rank may lead an earlier one by no more than 6 standard deviations;
\* with noticeable pressure (per mille) the first rank leads the last one.
Favours(c, press) ==
  /\ \A i \in 1..(Len(c) - 1) : c[i + 1] <= c[i] \/ (c[i + 1] - c[i]) * (c[i + 1] - c[i]) <= 36 * (c[i] + c[i + 1])
  /\ (press >= 300 /\ Len(c) >= 2) => c[1] > c[Len(c)]
=============================================================================
