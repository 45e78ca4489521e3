------------------------------- MODULE ValGen -------------------------------
(* Exhaustive small universes for replay into the real operators and the real codec: every value of small   *)
(* parameter spaces, and JSON documents around them.                                                       *)
EXTENDS Domain, Json
CONSTANTS SpecFile, Mode
VARIABLE vec
Specs == ndJsonDeserialize(SpecFile)

\* the numbers to choose from are given with the space (nums); everything else is enumerated
RECURSIVE Vals(_, _, _)
Vals(s, nums, keys) ==
  CASE s[1] = "real" -> {<<"real", n>> : n \in {m \in Range(nums.f) : FIn(m, s[4], s[5])}}
    [] s[1] = "int" -> {<<"int", n>> : n \in {m \in Range(nums.i) : IIn(m, s[4], s[5])}}
    [] s[1] = "bool" -> {<<"bool", TRUE>>, <<"bool", FALSE>>}
    [] s[1] = "enum" -> {<<"enum", n>> : n \in Range(s[2])}
    [] s[1] = "const" -> {<<"const">>}
    [] s[1] = "sub" -> LET All == UNION {Vals(s[2][k], nums, keys) : k \in DOMAIN s[2]}
                       IN {<<"sub", f>> : f \in {g \in [DOMAIN s[2] -> All] : \A k \in DOMAIN s[2] : VConforms(s[2][k], g[k])}}
    [] s[1] = "array" -> {<<"array", f>> : f \in [1..s[3] -> Vals(s[2], nums, keys)]}
    [] s[1] = "anon" -> LET V == Vals(s[2], nums, keys)
                        IN UNION {{<<"anon", f>> : f \in [K -> V]} : K \in {K \in SUBSET Range(keys) : SizeOk(Cardinality(K), s[4], s[5])}}
    [] s[1] = "variant" -> UNION {{<<"variant", n, v>> : v \in Vals(s[2][n], nums, keys)} : n \in DOMAIN s[2]}
    [] s[1] = "optional" -> {<<"opt", <<>>>>} \cup {<<"opt", <<v>>>> : v \in Vals(s[2], nums, keys)}

\* JSON documents that differ from j in one place
Odd(nums) == {<<"z">>, <<"b", TRUE>>, <<"s", "a">>, <<"s", "u">>, <<"a", <<>>>>, <<"o", <<>>>>} \cup Range(nums.ji)
StrangeKeys == {"a", "u", "3", "01", "+1", "-1", "", " 1", "1.0", "18446744073709551615", "18446744073709551616"}
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Near(_, _)
Near(j, nums) ==
  Odd(nums) \cup
  CASE j[1] = "a" ->
         LET n == Len(j[2]) IN
         {<<"a", [j[2] EXCEPT ![i] = c]>> : <<i, c>> \in UNION {{<<i, c>> : c \in Near(j[2][i], nums)} : i \in 1..n}}
         \cup (IF n > 0 THEN {<<"a", Append(j[2], j[2][n])>>, <<"a", SubSeq(j[2], 1, n - 1)>>, j[2][1]} ELSE {})
         \cup {<<"o", [k \in {Key(i - 1) : i \in 1..n} |-> j[2][1]]>>}
    [] j[1] = "o" ->
         LET D == DOMAIN j[2] IN
         {<<"o", With(j[2], p[1], p[2])>> : p \in UNION {{<<k, c>> : c \in Near(j[2][k], nums)} : k \in D}}
         \cup {<<"o", Without(j[2], k)>> : k \in D}
         \cup UNION {{<<"o", With(j[2], k, j[2][d])>> : k \in StrangeKeys} : d \in D}
         \cup {<<"o", With(j[2], k, <<"z">>)>> : k \in StrangeKeys}
         \cup UNION {{<<"o", With(Without(j[2], d), k, j[2][d])>> : k \in StrangeKeys} : d \in D}
         \cup {j[2][k] : k \in D}
         \cup {<<"a", [i \in 1..Cardinality(D) |-> j[2][CHOOSE k \in D : TRUE]]>>}
    [] OTHER -> {<<"a", <<j>>>>, <<"a", <<j, j>>>>, <<"o", [k \in {"a"} |-> j]>>, <<"o", [k \in {"0"} |-> j]>>}
\* an int is written as <<"i", int, num>>: the given renditions are used
RECURSIVE Js(_, _)
Js(j, nums) == CASE j[1] = "i" -> CHOOSE x \in Range(nums.ji) : x[1] = "i" /\ x[2] = j[2]
                 [] j[1] = "a" -> <<"a", [i \in DOMAIN j[2] |-> Js(j[2][i], nums)]>>
                 [] j[1] = "o" -> <<"o", [k \in DOMAIN j[2] |-> Js(j[2][k], nums)]>>
                 [] OTHER -> j

GInit == \E i \in DOMAIN Specs :
           \/ Mode = "values" /\ \E v \in Vals(Specs[i].s, Specs[i].nums, Specs[i].keys) : vec = <<Specs[i].i, v>>
           \/ /\ Mode = "json"
              /\ \E v \in Vals(Specs[i].s, Specs[i].nums, Specs[i].keys) :
                   LET j == Js(ToJ(v), Specs[i].nums) IN \E k \in {j} \cup Near(j, Specs[i].nums) : vec = <<Specs[i].i, k>>
GNext == FALSE /\ vec' = vec
Show == PrintT(<<"VAL", ToJson(vec)>>)
=============================================================================
