------------------------------- MODULE DocGen -------------------------------
(* Enumerates small spec documents exhaustively, family by family, for replay into the real parser.        *)
EXTENDS SpecDoc, Json
CONSTANT Family
VARIABLE x

NI(i) == <<"i", i>>            \* abbreviated: the driver expands <<"i", n>> and <<"f", "text">>
NF(t) == <<"f", t>>
S(t) == <<"s", t>>
B(b) == <<"b", b>>
M(ps) == <<"m", ps>>
P(k, v) == <<S(k), v>>
\* all ways to write an attribute: absent, or one of vs
Opt(k, vs) == {<<>>} \cup {<<P(k, v)>> : v \in vs}
T(t) == <<P("type", S(t))>>
Leaf == M(T("const"))
Ref(t) == M(T(t))

IntVals == {NI(0), NI(1), NI(2)}
Ints == {M(T("int") \o mn \o mx \o i \o sc) :
           mn \in Opt("min", IntVals), mx \in Opt("max", IntVals \cup {NI(3)}), i \in Opt("init", IntVals \cup {NI(3), NF("1.0"), S("1")}),
           sc \in Opt("scale", {NI(1), NF("0.5"), NI(0), NI(-1), NF("nan"), NF("inf"), S("1")})}
RealVals == {NF("0.0"), NF("1.0"), NF("nan"), NF("-inf"), NI(1)}
Reals == {M(mn \o i \o T("real") \o mx \o sc) :
           mn \in Opt("min", RealVals), mx \in Opt("max", (RealVals \ {NF("-inf")}) \cup {NF("inf"), NF("2.0")}),
           i \in Opt("init", RealVals \cup {NF("0.5"), NF("-0.0"), <<"z">>}), sc \in Opt("scale", {NF("1.0"), NF("0.0"), NF("-0.0"), NF("5e-324"), NF("inf")})}
Sizes == {NI(0), NI(1), NI(2)}
Anons == {M(T("anon map") \o mn \o mx \o i \o vt) :
           mn \in Opt("minSize", Sizes \cup {NI(-1)}), mx \in Opt("maxSize", Sizes \cup {NI(3), NF("1.0")}), i \in Opt("initSize", Sizes \cup {NI(3)}),
           vt \in Opt("valueType", {Leaf, M(<<>>), S("const")})}
Arrays == {M(T("array") \o s \o vt \o e) :
            s \in Opt("size", {NI(-1), NI(0), NI(1), NI(2), NI(3), NF("2.0"), S("2")}), vt \in Opt("valueType", {Leaf, M(T("bool")), Ref("foo")}),
            e \in Opt("minSize", {NI(1)}) \cup Opt("values", {NI(1)})}
Enums == {M(T("enum") \o i \o vs \o e) :
            i \in Opt("init", {S("a"), S("b"), S("c"), NI(1), <<"z">>}),
            vs \in Opt("values", {<<"a", v>> : v \in UNION {[1..n -> {S("a"), S("b"), NI(1), <<"z">>}] : n \in 0..3}} \cup {S("ab"), M(<<>>)}),
            e \in {<<>>, <<P("b", Leaf)>>}}
Variants == {M(T("variant") \o i \o a \o b \o c) :
            i \in Opt("init", {S("a"), S("b"), S("type"), S("init"), NI(1), M(T("const"))}),
            a \in Opt("a", {Leaf, NI(1), M(T("bool"))}), b \in Opt("b", {Leaf, Ref("foo")}), c \in Opt("typeDef x", {Leaf}) \cup {<<<<NI(1), Leaf>>>>}}
Optionals == {M(T("optional") \o i \o vt \o e) :
            i \in Opt("initPresent", {B(TRUE), B(FALSE), NI(1), S("true")}), vt \in Opt("valueType", {Leaf, M(T("optional")), <<"z">>}),
            e \in Opt("init", {B(TRUE)}) \cup Opt("type", {S("optional")})}
Bools == {M(t \o i \o e) : t \in Opt("type", {S("bool"), S("const"), S("boolean"), NI(1), <<"z">>, B(TRUE)}),
            i \in Opt("init", {B(TRUE), B(FALSE), NI(0), S("true")}), e \in Opt("scale", {NI(1)}) \cup {<<<<NI(1), B(TRUE)>>>>}}

\* scoping: two levels, definitions of A and B at either, in every order relative to each other and to the members
Kinds == {M(T("const")), M(T("bool") \o <<P("init", B(TRUE))>>)}
Def(n, d) == P("typeDef " \o n, d)
RefOr(d) == d \cup {Ref("A"), Ref("B")}
InnerDefs == {<<>>, <<Def("A", M(T("const")))>>, <<Def("B", Ref("A"))>>, <<Def("A", Ref("A"))>>, <<Def("A", Ref("B")), Def("B", M(T("const")))>>}
OuterDefs == {<<>>, <<Def("A", M(T("bool") \o <<P("init", B(FALSE))>>))>>,
              <<Def("A", M(T("const"))), Def("B", Ref("A"))>>, <<Def("B", Ref("A")), Def("A", M(T("const")))>>,
              <<Def("A", M(T("const"))), Def("B", M(T("array") \o <<P("size", NI(2)), P("valueType", Ref("A"))>>))>>,
              <<Def("real", Leaf)>>, <<Def("", Leaf)>>, <<Def("A", NI(1))>>}
Holders(m) == {m, M(T("optional") \o <<P("initPresent", B(TRUE)), P("valueType", m)>>),
               M(T("variant") \o <<P("init", S("u")), P("u", m), P("w", Ref("A"))>>)}
Scopes == UNION {{M(od \o <<P("m", h), P("n", Ref(r))>>), M(<<P("m", h), P("n", Ref(r))>> \o od)} :
            od \in OuterDefs, r \in {"A", "B", "const"},
            h \in UNION {Holders(M(id \o <<P("p", Ref(q))>>)) \cup Holders(M(<<P("p", Ref(q))>> \o id)) : id \in InnerDefs, q \in {"A", "B"}}}

Docs == CASE Family = "int" -> Ints [] Family = "real" -> Reals [] Family = "anon" -> Anons [] Family = "array" -> Arrays
          [] Family = "enum" -> Enums [] Family = "variant" -> Variants [] Family = "optional" -> Optionals [] Family = "bool" -> Bools
          [] Family = "scope" -> Scopes
GInit == x \in Docs
GNext == FALSE /\ x' = x
Show == PrintT(<<"DOC", ToJson(x)>>)
=============================================================================
