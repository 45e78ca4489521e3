------------------------------ MODULE SpecDoc ------------------------------
(* What a spec document means (C10).  A document is the YAML data model:                                   *)
(*   <<"z">> <<"b", bool>> <<"i", int, f64, n>> <<"u", f64, n>> <<"f", f64>> <<"nonf">> <<"s", str>>        *)
(*   <<"a", <<..>>>> <<"m", << <<key, value>>, ... >> >>   (n: the integer, cut off at +-2*10^9)            *)
(* Parse(d, env) is the parameter space d denotes with the type definitions env in scope, or Bad.          *)
EXTENDS Domain

Bad == <<"bad">>
IsBad(x) == x[1] = "bad"
BuiltIn == {"real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const"}
NoDefs == [x \in {} |-> Bad]

IsDef(k) == Len(k) >= 8 /\ SubSeq(k, 1, 8) = "typeDef "
DefName(k) == SubSeq(k, 9, Len(k))

StrKeys(m) == \A i \in DOMAIN m : m[i][1][1] = "s"
Has(m, k) == \E i \in DOMAIN m : m[i][1][1] = "s" /\ m[i][1][2] = k
Get(m, k) == m[CHOOSE i \in DOMAIN m : m[i][1][1] = "s" /\ m[i][1][2] = k][2]
Only(m, ks) == StrKeys(m) /\ \A i \in DOMAIN m : m[i][1][2] \in ks

IsReal(d) == d[1] \in {"f", "i", "u"}
RealOf(d) == CASE d[1] = "f" -> d[2] [] d[1] = "i" -> d[3] [] d[1] = "u" -> d[2]
IsInt(d) == d[1] = "i"
IsSize(d) == (d[1] = "i" /\ d[4] >= 0) \/ d[1] = "u"
SizeOf(d) == IF d[1] = "i" THEN d[4] ELSE d[3]

\* an optional attribute: absent, or well typed
OptAttr(m, k, P(_)) == ~Has(m, k) \/ P(Get(m, k))
Attr(m, k, P(_)) == Has(m, k) /\ P(Get(m, k))
OptVal(m, k, F(_)) == IF Has(m, k) THEN <<F(Get(m, k))>> ELSE <<>>

IsBool(d) == d[1] = "b"
IsStr(d) == d[1] = "s"
Names(m, skip) == {m[i][1][2] : i \in DOMAIN m} \ skip

\* the same name twice means nothing definite
Dup(m) == \E i, j \in DOMAIN m : i < j /\ m[i][1][1] = "s" /\ m[j][1][1] = "s" /\ m[i][1][2] = m[j][1][2]

RECURSIVE Parse(_, _), ParseSub(_, _), Scope(_, _, _)

ParseReal(m) ==
  IF /\ Only(m, {"type", "min", "max", "scale", "init"})
     /\ OptAttr(m, "min", IsReal) /\ OptAttr(m, "max", IsReal)
     /\ Attr(m, "init", IsReal) /\ Attr(m, "scale", IsReal)
  THEN LET s == <<"real", RealOf(Get(m, "init")), RealOf(Get(m, "scale")), OptVal(m, "min", RealOf), OptVal(m, "max", RealOf)>>
       IN IF WellFormed(s) THEN s ELSE Bad
  ELSE Bad

IntOf(d) == d[2]
ParseInt(m) ==
  IF /\ Only(m, {"type", "min", "max", "scale", "init"})
     /\ OptAttr(m, "min", IsInt) /\ OptAttr(m, "max", IsInt)
     /\ Attr(m, "init", IsInt) /\ Attr(m, "scale", IsReal)
  THEN LET s == <<"int", IntOf(Get(m, "init")), RealOf(Get(m, "scale")), OptVal(m, "min", IntOf), OptVal(m, "max", IntOf)>>
       IN IF WellFormed(s) THEN s ELSE Bad
  ELSE Bad

ParseEnum(m) ==
  IF /\ Only(m, {"type", "init", "values"})
     /\ Attr(m, "init", IsStr)
     /\ Has(m, "values") /\ Get(m, "values")[1] = "a"
     /\ \A i \in DOMAIN Get(m, "values")[2] : IsStr(Get(m, "values")[2][i])
  THEN LET s == <<"enum", [i \in DOMAIN Get(m, "values")[2] |-> Get(m, "values")[2][i][2]], Get(m, "init")[2]>>
       IN IF WellFormed(s) THEN s ELSE Bad
  ELSE Bad

ParseArray(m, env) ==
  IF Only(m, {"type", "size", "valueType"}) /\ Has(m, "valueType") /\ Attr(m, "size", IsSize)
  THEN LET c == Parse(Get(m, "valueType"), env)
       IN IF IsBad(c) \/ SizeOf(Get(m, "size")) < 2 THEN Bad ELSE <<"array", c, SizeOf(Get(m, "size"))>>
  ELSE Bad

ParseAnon(m, env) ==
  IF /\ Only(m, {"type", "initSize", "minSize", "maxSize", "valueType"}) /\ Has(m, "valueType")
     /\ Attr(m, "initSize", IsSize) /\ OptAttr(m, "minSize", IsSize) /\ OptAttr(m, "maxSize", IsSize)
  THEN LET c == Parse(Get(m, "valueType"), env)
           mn == OptVal(m, "minSize", SizeOf)
           mx == OptVal(m, "maxSize", SizeOf)
           n == SizeOf(Get(m, "initSize"))
       IN IF \/ IsBad(c)
             \/ mn # <<>> /\ mx # <<>> /\ mn[1] >= mx[1]
             \/ mx # <<>> /\ mx[1] = 0
             \/ ~SizeOk(n, mn, mx) THEN Bad
          ELSE <<"anon", c, n, mn, mx>>
  ELSE Bad

ParseOptional(m, env) ==
  IF Only(m, {"type", "initPresent", "valueType"}) /\ Has(m, "valueType") /\ Attr(m, "initPresent", IsBool)
  THEN LET c == Parse(Get(m, "valueType"), env)
       IN IF IsBad(c) THEN Bad ELSE <<"optional", c, Get(m, "initPresent")[2]>>
  ELSE Bad

ParseVariant(m, env) ==
  IF StrKeys(m) /\ Attr(m, "init", IsStr)
  THEN LET ns == Names(m, {"type", "init"})
           ch == [n \in ns |-> Parse(Get(m, n), env)]
       IN IF \/ Cardinality(ns) < 2 \/ Get(m, "init")[2] \notin ns
             \/ \E n \in ns : IsBad(ch[n]) THEN Bad
          ELSE <<"variant", ch, Get(m, "init")[2]>>
  ELSE Bad

\* the type definitions of a mapping extend the scope one after the other; each sees those before it and the outer ones
Scope(m, i, env) ==
  IF i > Len(m) THEN <<TRUE, env>>
  ELSE LET k == m[i][1][2]
       IN IF ~IsDef(k) THEN Scope(m, i + 1, env)
          ELSE LET t == Parse(m[i][2], env)
               IN IF DefName(k) \in BuiltIn \/ IsBad(t) THEN <<FALSE, env>>
                  ELSE Scope(m, i + 1, (DefName(k) :> t) @@ env)

\* definitions are visible to every member, wherever it stands
ParseSub(m, env) ==
  IF ~StrKeys(m) THEN Bad
  ELSE LET sc == Scope(m, 1, env)
           ns == {n \in Names(m, {"type"}) : ~IsDef(n)}
       IN IF ~sc[1] \/ ns = {} THEN Bad
          ELSE LET ch == [n \in ns |-> Parse(Get(m, n), sc[2])]
               IN IF \E n \in ns : IsBad(ch[n]) THEN Bad ELSE <<"sub", ch>>

Parse(d, env) ==
  IF d[1] # "m" THEN Bad
  ELSE LET m == d[2]
       IN IF Dup(m) THEN Bad
          ELSE IF Has(m, "type") /\ ~IsStr(Get(m, "type")) THEN Bad
          ELSE LET t == IF Has(m, "type") THEN Get(m, "type")[2] ELSE "sub"
               IN CASE t = "real" -> ParseReal(m)
                    [] t = "int" -> ParseInt(m)
                    [] t = "bool" -> IF Only(m, {"type", "init"}) /\ Attr(m, "init", IsBool)
                                     THEN <<"bool", Get(m, "init")[2]>> ELSE Bad
                    [] t = "sub" -> ParseSub(m, env)
                    [] t = "array" -> ParseArray(m, env)
                    [] t = "anon map" -> ParseAnon(m, env)
                    [] t = "variant" -> ParseVariant(m, env)
                    [] t = "enum" -> ParseEnum(m)
                    [] t = "optional" -> ParseOptional(m, env)
                    [] t = "const" -> IF Only(m, {"type"}) THEN <<"const">> ELSE Bad
                    [] OTHER -> IF t \in DOMAIN env /\ Only(m, {"type"}) THEN env[t] ELSE Bad

OEq(a, b, E(_, _)) == Len(a) = Len(b) /\ (a = <<>> \/ E(a[1], b[1]))
RECURSIVE SEq(_, _)
SEq(a, b) ==
  /\ a[1] = b[1]
  /\ CASE a[1] = "real" -> FEq(a[2], b[2]) /\ FEq(a[3], b[3]) /\ OEq(a[4], b[4], FEq) /\ OEq(a[5], b[5], FEq)
       [] a[1] = "int" -> a[2] = b[2] /\ FEq(a[3], b[3]) /\ a[4] = b[4] /\ a[5] = b[5]
       [] a[1] = "sub" -> MapEq(a[2], b[2], SEq)
       [] a[1] = "array" -> a[3] = b[3] /\ SEq(a[2], b[2])
       [] a[1] = "anon" -> a[3] = b[3] /\ a[4] = b[4] /\ a[5] = b[5] /\ SEq(a[2], b[2])
       [] a[1] = "variant" -> a[3] = b[3] /\ MapEq(a[2], b[2], SEq)
       [] a[1] = "enum" -> a[3] = b[3] /\ Range(a[2]) = Range(b[2])
       [] a[1] = "optional" -> a[3] = b[3] /\ SEq(a[2], b[2])
       [] OTHER -> a = b

\* r: <<"ok", spec, initial value>>, <<"err", text>> or <<"panic", text>>.  d = <<"text">> stands for arbitrary
\* text, of which only totality and the quality of an accepted space are demanded.
DocOk(d, r) ==
  LET p == Parse(d, NoDefs)
  IN CASE d[1] = "text" -> r[1] = "err" \/ (r[1] = "ok" /\ WellFormed(r[2]) /\ VConforms(r[2], r[3]))
       [] IsBad(p) -> r[1] = "err"
       [] OTHER -> /\ r[1] = "ok"
                   /\ SEq(r[2], p)
                   /\ WellFormed(r[2])
                   /\ VConforms(r[2], r[3])
                   /\ VEq(r[3], Init(p))
=============================================================================
