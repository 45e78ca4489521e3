------------------------------- MODULE Domain -------------------------------
(* The parameter space of cambrian: specs, values and their JSON form.                                    *)
(*                                                                                                        *)
(* spec node     <<"real", init, scale, min, max>>  <<"int", init, scale, min, max>>  <<"bool", init>>     *)
(*               <<"sub", [key |-> node]>>  <<"array", node, size>>  <<"anon", node, initSize, min, max>>  *)
(*               <<"variant", [name |-> node], init>>  <<"enum", <<names>>, init>>                         *)
(*               <<"optional", node, initPresent>>  <<"const">>                                            *)
(* value node    <<"real", num>> <<"int", num>> <<"bool", b>> <<"sub", [key |-> node]>> <<"array", <<..>>>> *)
(*               <<"anon", [key |-> node]>> <<"variant", name, node>> <<"enum", name>>                     *)
(*               <<"opt", <<>> or <<node>>>> <<"const">>                                                   *)
(* JSON          <<"z">> <<"b", b>> <<"f", num>> <<"i", int, num>> <<"u", num>> <<"s", str>>               *)
(*               <<"a", <<..>>>> <<"o", [key |-> json]>>                                                   *)
EXTENDS Num, FiniteSets, TLC

Range(f) == {f[i] : i \in DOMAIN f}
SizeOk(n, mn, mx) == (mn = <<>> \/ n >= mn[1]) /\ (mx = <<>> \/ n <= mx[1])
FIn(x, mn, mx) == (mn = <<>> \/ FLeq(mn[1], x)) /\ (mx = <<>> \/ FLeq(x, mx[1]))
IIn(x, mn, mx) == (mn = <<>> \/ ILeq(mn[1], x)) /\ (mx = <<>> \/ ILeq(x, mx[1]))

(* ------------------------------------------------------------------ map keys ------------------------ *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
MaxKey == "18446744073709551615"
\* canonical decimal form of a usize
IsKey(k) == /\ Len(k) > 0
            /\ \A i \in 1..Len(k) : SubSeq(k, i, i) \in Digits
            /\ Len(k) = 1 \/ SubSeq(k, 1, 1) # "0"
            /\ Len(k) <= 19 \/ k = MaxKey

(* ------------------------------------------------------------------ conformance --------------------- *)
\* C01: a JSON parameter set has exactly the declared structure
RECURSIVE Conforms(_, _)
Conforms(s, j) ==
  CASE s[1] = "real" -> j[1] = "f" /\ FIn(j[2], s[4], s[5])
    [] s[1] = "int"  -> j[1] = "i" /\ IIn(j[2], s[4], s[5])
    [] s[1] = "bool" -> j[1] = "b"
    [] s[1] = "sub"  -> /\ j[1] = "o"
                        /\ DOMAIN j[2] = DOMAIN s[2]
                        /\ \A k \in DOMAIN s[2] : Conforms(s[2][k], j[2][k])
    [] s[1] = "array" -> /\ j[1] = "a"
                         /\ Len(j[2]) = s[3]
                         /\ \A i \in 1..Len(j[2]) : Conforms(s[2], j[2][i])
    [] s[1] = "anon" -> /\ j[1] = "o"
                        /\ SizeOk(Cardinality(DOMAIN j[2]), s[4], s[5])
                        /\ \A k \in DOMAIN j[2] : IsKey(k) /\ Conforms(s[2], j[2][k])
    [] s[1] = "variant" -> /\ j[1] = "o"
                           /\ Cardinality(DOMAIN j[2]) = 1
                           /\ \A k \in DOMAIN j[2] : k \in DOMAIN s[2] /\ Conforms(s[2][k], j[2][k])
    [] s[1] = "enum" -> j[1] = "s" /\ j[2] \in Range(s[2])
    [] s[1] = "optional" -> j[1] = "z" \/ Conforms(s[2], j)
    [] s[1] = "const" -> j[1] = "z"
    [] OTHER -> FALSE

\* the same for a typed value
RECURSIVE VConforms(_, _)
VConforms(s, v) ==
  CASE s[1] = "real" -> v[1] = "real" /\ FIn(v[2], s[4], s[5])
    [] s[1] = "int"  -> v[1] = "int" /\ IIn(v[2], s[4], s[5])
    [] s[1] = "bool" -> v[1] = "bool"
    [] s[1] = "sub"  -> /\ v[1] = "sub"
                        /\ DOMAIN v[2] = DOMAIN s[2]
                        /\ \A k \in DOMAIN s[2] : VConforms(s[2][k], v[2][k])
    [] s[1] = "array" -> /\ v[1] = "array"
                         /\ Len(v[2]) = s[3]
                         /\ \A i \in 1..Len(v[2]) : VConforms(s[2], v[2][i])
    [] s[1] = "anon" -> /\ v[1] = "anon"
                        /\ SizeOk(Cardinality(DOMAIN v[2]), s[4], s[5])
                        /\ \A k \in DOMAIN v[2] : VConforms(s[2], v[2][k])
    [] s[1] = "variant" -> v[1] = "variant" /\ v[2] \in DOMAIN s[2] /\ VConforms(s[2][v[2]], v[3])
    [] s[1] = "enum" -> v[1] = "enum" /\ v[2] \in Range(s[2])
    [] s[1] = "optional" -> v[1] = "opt" /\ (v[2] = <<>> \/ VConforms(s[2], v[2][1]))
    [] s[1] = "const" -> v[1] = "const"
    [] OTHER -> FALSE

(* ------------------------------------------------------------------ well-formed specs (C10) --------- *)
RECURSIVE WellFormed(_)
WellFormed(s) ==
  CASE s[1] = "real" -> /\ s[4] = <<>> \/ s[5] = <<>> \/ FLt(s[4][1], s[5][1])
                        /\ FIn(s[2], s[4], s[5])
                        /\ FLt(FZero, s[3]) /\ FLeq(s[3], FMax)
    [] s[1] = "int"  -> /\ s[4] = <<>> \/ s[5] = <<>> \/ ILt(s[4][1], s[5][1])
                        /\ IIn(s[2], s[4], s[5])
                        /\ FLt(FZero, s[3]) /\ FLeq(s[3], FMax)
    [] s[1] = "bool" -> TRUE
    [] s[1] = "sub"  -> DOMAIN s[2] # {} /\ \A k \in DOMAIN s[2] : WellFormed(s[2][k])
    [] s[1] = "array" -> s[3] >= 2 /\ WellFormed(s[2])
    [] s[1] = "anon" -> /\ s[4] = <<>> \/ s[5] = <<>> \/ s[4][1] < s[5][1]
                        /\ SizeOk(s[3], s[4], s[5])
                        /\ s[5] = <<>> \/ s[5][1] > 0
                        /\ WellFormed(s[2])
    [] s[1] = "variant" -> /\ Cardinality(DOMAIN s[2]) >= 2
                           /\ s[3] \in DOMAIN s[2]
                           /\ \A k \in DOMAIN s[2] : WellFormed(s[2][k])
    [] s[1] = "enum" -> Cardinality(Range(s[2])) >= 2 /\ s[3] \in Range(s[2])
    [] s[1] = "optional" -> WellFormed(s[2])
    [] s[1] = "const" -> TRUE
    [] OTHER -> FALSE

(* ------------------------------------------------------------------ initial value ------------------- *)
Key(i) == ToString(i)
RECURSIVE Init(_)
Init(s) ==
  CASE s[1] = "real" -> <<"real", s[2]>>
    [] s[1] = "int"  -> <<"int", s[2]>>
    [] s[1] = "bool" -> <<"bool", s[2]>>
    [] s[1] = "sub"  -> <<"sub", [k \in DOMAIN s[2] |-> Init(s[2][k])]>>
    [] s[1] = "array" -> <<"array", [i \in 1..s[3] |-> Init(s[2])]>>
    [] s[1] = "anon" -> <<"anon", [k \in {Key(i) : i \in 0..(s[3] - 1)} |-> Init(s[2])]>>
    [] s[1] = "variant" -> <<"variant", s[3], Init(s[2][s[3]])>>
    [] s[1] = "enum" -> <<"enum", s[3]>>
    [] s[1] = "optional" -> <<"opt", IF s[3] THEN <<Init(s[2])>> ELSE <<>>>>
    [] s[1] = "const" -> <<"const">>

(* ------------------------------------------------------------------ equality ------------------------ *)
\* structural equality, total on mixed shapes (TLC's "=" raises an error on <<1>> = <<"a">>)
RECURSIVE VEq(_, _)
MapEq(f, g, E(_, _)) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : E(f[k], g[k])
VEq(a, b) ==
  /\ a[1] = b[1]
  /\ CASE a[1] \in {"sub", "anon", "array"} -> MapEq(a[2], b[2], VEq)
       [] a[1] = "variant" -> a[2] = b[2] /\ VEq(a[3], b[3])
       [] a[1] = "opt" -> Len(a[2]) = Len(b[2]) /\ (a[2] = <<>> \/ VEq(a[2][1], b[2][1]))
       [] a[1] = "real" -> FEq(a[2], b[2])
       [] OTHER -> a = b

RECURSIVE JEq(_, _)
JEq(a, b) ==
  /\ a[1] = b[1]
  /\ CASE a[1] \in {"o", "a"} -> MapEq(a[2], b[2], JEq)
       [] OTHER -> a = b

(* ------------------------------------------------------------------ JSON form (C11) ----------------- *)
RECURSIVE ToJ(_)
\* an int's f64 rendition is not modelled here: compare with JEqV below, which ignores it
ToJ(v) ==
  CASE v[1] = "real" -> <<"f", v[2]>>
    [] v[1] = "int"  -> <<"i", v[2]>>
    [] v[1] = "bool" -> <<"b", v[2]>>
    [] v[1] \in {"sub", "anon"} -> <<"o", [k \in DOMAIN v[2] |-> ToJ(v[2][k])]>>
    [] v[1] = "array" -> <<"a", [i \in DOMAIN v[2] |-> ToJ(v[2][i])]>>
    [] v[1] = "variant" -> <<"o", [k \in {v[2]} |-> ToJ(v[3])]>>
    [] v[1] = "enum" -> <<"s", v[2]>>
    [] v[1] = "opt" -> IF v[2] = <<>> THEN <<"z">> ELSE ToJ(v[2][1])
    [] v[1] = "const" -> <<"z">>

\* JSON equality as observed: ints by their integer, floats bit for bit
RECURSIVE JSame(_, _)
JSame(a, b) ==
  /\ a[1] = b[1]
  /\ CASE a[1] \in {"o", "a"} -> MapEq(a[2], b[2], JSame)
       [] a[1] = "z" -> TRUE
       [] OTHER -> a[2] = b[2]

NumOf(j) == CASE j[1] = "f" -> j[2] [] j[1] = "i" -> j[3] [] j[1] = "u" -> j[2]

\* reading a guess: is it accepted ...
RECURSIVE Accepts(_, _)
Accepts(s, j) ==
  CASE s[1] = "real" -> j[1] \in {"f", "i", "u"} /\ FIn(NumOf(j), s[4], s[5])
    [] s[1] = "int"  -> j[1] = "i" /\ IIn(j[2], s[4], s[5])
    [] s[1] = "bool" -> j[1] = "b"
    [] s[1] = "sub"  -> /\ j[1] = "o"
                        /\ DOMAIN j[2] = DOMAIN s[2]
                        /\ \A k \in DOMAIN s[2] : Accepts(s[2][k], j[2][k])
    [] s[1] = "array" -> /\ j[1] = "a"
                         /\ Len(j[2]) = s[3]
                         /\ \A i \in 1..Len(j[2]) : Accepts(s[2], j[2][i])
    [] s[1] = "anon" -> \/ /\ j[1] = "o"
                           /\ SizeOk(Cardinality(DOMAIN j[2]), s[4], s[5])
                           /\ \A k \in DOMAIN j[2] : IsKey(k) /\ Accepts(s[2], j[2][k])
                        \/ /\ j[1] = "a"
                           /\ SizeOk(Len(j[2]), s[4], s[5])
                           /\ \A i \in 1..Len(j[2]) : Accepts(s[2], j[2][i])
    [] s[1] = "variant" -> /\ j[1] = "o"
                           /\ Cardinality(DOMAIN j[2]) = 1
                           /\ \A k \in DOMAIN j[2] : k \in DOMAIN s[2] /\ Accepts(s[2][k], j[2][k])
    [] s[1] = "enum" -> j[1] = "s" /\ j[2] \in Range(s[2])
    [] s[1] = "optional" -> j[1] = "z" \/ Accepts(s[2], j)
    [] s[1] = "const" -> j[1] = "z"
    [] OTHER -> FALSE

\* a map key in another than its canonical form ("01", "+1"): whether it is taken for that number is left open
RECURSIVE OddKeys(_, _)
OddKeys(s, j) ==
  CASE s[1] = "sub" /\ j[1] = "o" -> \E k \in DOMAIN s[2] \cap DOMAIN j[2] : OddKeys(s[2][k], j[2][k])
    [] s[1] = "array" /\ j[1] = "a" -> \E i \in DOMAIN j[2] : OddKeys(s[2], j[2][i])
    [] s[1] = "anon" /\ j[1] \in {"o", "a"} -> \E k \in DOMAIN j[2] : (j[1] = "o" /\ ~IsKey(k)) \/ OddKeys(s[2], j[2][k])
    [] s[1] = "variant" /\ j[1] = "o" -> \E k \in DOMAIN s[2] \cap DOMAIN j[2] : OddKeys(s[2][k], j[2][k])
    [] s[1] = "optional" /\ j[1] # "z" -> OddKeys(s[2], j)
    [] OTHER -> FALSE

\* ... and as which value
RECURSIVE FromJ(_, _)
FromJ(s, j) ==
  CASE s[1] = "real" -> <<"real", NumOf(j)>>
    [] s[1] = "int"  -> <<"int", j[2]>>
    [] s[1] = "bool" -> <<"bool", j[2]>>
    [] s[1] = "sub"  -> <<"sub", [k \in DOMAIN s[2] |-> FromJ(s[2][k], j[2][k])]>>
    [] s[1] = "array" -> <<"array", [i \in DOMAIN j[2] |-> FromJ(s[2], j[2][i])]>>
    [] s[1] = "anon" -> IF j[1] = "o"
                        THEN <<"anon", [k \in DOMAIN j[2] |-> FromJ(s[2], j[2][k])]>>
                        ELSE <<"anon", LET IdxOf(k) == CHOOSE i \in DOMAIN j[2] : Key(i - 1) = k
                                       IN [k \in {Key(i - 1) : i \in DOMAIN j[2]} |-> FromJ(s[2], j[2][IdxOf(k)])]>>
    [] s[1] = "variant" -> LET k == CHOOSE x \in DOMAIN j[2] : TRUE IN <<"variant", k, FromJ(s[2][k], j[2][k])>>
    [] s[1] = "enum" -> <<"enum", j[2]>>
    [] s[1] = "optional" -> <<"opt", IF j[1] = "z" THEN <<>> ELSE <<FromJ(s[2], j)>>>>
    [] s[1] = "const" -> <<"const">>

\* specs in which an optional directly wraps an optional or a const have an ambiguous JSON form
RECURSIVE Ambiguous(_)
Ambiguous(s) ==
  CASE s[1] = "optional" -> s[2][1] \in {"optional", "const"} \/ Ambiguous(s[2])
    [] s[1] \in {"sub", "variant"} -> \E k \in DOMAIN s[2] : Ambiguous(s[2][k])
    [] s[1] \in {"array", "anon"} -> Ambiguous(s[2])
    [] OTHER -> FALSE
=============================================================================
