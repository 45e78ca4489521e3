"""Small parameter spaces whose values TLC enumerates completely (spec/ValGen.tla)."""
import json

import checks_ops
import core
import gen
import ops
import tenc

I = ("int", 0, 1.0, None, None)
IB = ("int", 0, 2.0, -3, 7)
R = ("real", 0.5, 1.0, None, None)
RB = ("real", 0.5, 1.0, -1.0, 2.0)
B = ("bool", True)
BF = ("bool", False)
E = ("enum", ["a", "b", "c"], "b")
C = ("const",)


def sub(**k):
    return ("sub", k)


def anon(s, n=1, lo=None, hi=None):
    return ("anon", s, n, lo, hi)


def var(init, **k):
    return ("variant", k, init)


def opt(s, p=True):
    return ("optional", s, p)


K3 = ["0", "1", "5"]
KX = ["0", "2", "18446744073709551615"]
K2 = ["0", "1"]
# (space, map keys to enumerate)
SPACES = [
    (I, []), (IB, []), (R, []), (RB, []), (B, []), (E, []), (C, []),
    (sub(a=B, b=IB), []),
    (sub(a=sub(x=B), b=E), []),
    (sub(a=RB, b=opt(B, False)), []),
    (("array", B, 3), []),
    (("array", sub(a=B, b=BF), 2), []),
    (("array", opt(B), 2), []),
    (("array", anon(B), 2), K2),
    (anon(B), K3),
    (anon(IB, 1, 1, 2), KX),
    (anon(E, 2, None, 2), KX),
    (anon(B, 2, 2, None), K3),
    (anon(B, 0, None, 1), K3),
    (anon(opt(B), 1), K2),
    (anon(C, 2, 1, None), KX),
    (anon(anon(BF, 1), 1), K2),
    (anon(var("a", a=B, b=C), 2), K2),
    (anon(sub(a=B, b=BF), 1), K2),
    (var("a", a=B, b=IB), []),
    (var("b", a=C, b=sub(x=B)), []),
    (var("a", a=IB, b=IB, c=B), []),
    (opt(var("y", x=sub(a=E), y=sub(a=E)), False), []),
    (var("a", a=anon(B, 1), b=B), K3),
    (var("p", p=var("x", x=B, y=C), q=opt(BF, False)), []),
    (opt(IB), []),
    (opt(sub(a=B, b=opt(BF, False)), False), []),
    (opt(anon(B, 2), True), K3),
    (opt(var("a", a=B, b=E), False), []),
    (opt(opt(B), True), []),
    (sub(m=anon(B, 1, 1, 2), o=opt(BF)), K2),
    (sub(v=var("a", a=B, b=C), e=E), []),
]
REALS = [-1.0, 0.5, 2.0]
INTS = [-3, 0, 7]


def spec_file(ctx, spaces, reals, ints, ji=()):
    p = ctx.path("spaces.ndjson")
    with open(p, "w") as f:
        for i, (s, ks) in enumerate(spaces):
            f.write(json.dumps({"i": i, "s": tenc.spec_enc(s), "keys": ks,
                                "nums": {"f": [tenc.flimbs(x) for x in reals], "i": [tenc.ilimbs(x) for x in ints],
                                         "ji": [tenc.jenc(x) for x in ji]}}) + "\n")
    return p


def fix(v):
    """TLC prints an empty map as an empty sequence"""
    if v[0] in ("sub", "anon"):
        return [v[0], {k: fix(c) for k, c in v[1].items()} if v[1] else {}]
    if v[0] in ("array", "opt"):
        return [v[0], [fix(c) for c in v[1]]]
    if v[0] == "variant":
        return [v[0], v[1], fix(v[2])]
    return v


def values(ctx):
    """list of (space, [typed values])"""
    p = spec_file(ctx, SPACES, REALS, INTS)
    got = checks_ops.tlc_enum(ctx, "ValGen", "VAL", 'CONSTANTS SpecFile = %s Mode = "values"' % core.tla_str(p), "values")
    by = {}
    for i, v in got:
        by.setdefault(i, []).append(fix(v))
    ctx.add("values_enumerated_by_TLC", len(got))
    return [(s, sorted(by[i], key=json.dumps)) for i, (s, _) in enumerate(SPACES)]


def jfix(j):
    if j[0] == "o":
        return ["o", {k: jfix(c) for k, c in j[1].items()} if j[1] else {}]
    if j[0] == "a":
        return ["a", [jfix(c) for c in j[1]]]
    return j


def jsons(ctx):
    """list of (space, [JSON documents]): every value of the small spaces with one number of each kind, and everything next to it"""
    p = spec_file(ctx, SPACES, [0.5], [0], [0, 5, -4, 8, 2**63, 2**64 - 1, -2**63, 3.5, -1.0, 2.0000000000000004])
    got = checks_ops.tlc_enum(ctx, "ValGen", "VAL", 'CONSTANTS SpecFile = %s Mode = "json"' % core.tla_str(p), "jsons")
    by = {}
    for i, v in got:
        by.setdefault(i, []).append(jfix(v))
    ctx.add("guesses_enumerated_by_TLC", len(got))
    return [(s, sorted(by[i], key=json.dumps)) for i, (s, _) in enumerate(SPACES)]
