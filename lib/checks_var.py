"""Checks of the variation operators: C12 (recombination), C13 (mutation), and the operator parts of C01 and C17."""
import copy
import itertools
import json

import core
import gen
import ops
import tenc
import universe

PINNED = 1e-300


# ------------------------------------------------------------------ case families
def exhaustive_xs(ctx, vals, pairs=700, triples=250, reps=5):
    """recombinations of every pair (and many triples) of every value of the small spaces"""
    r = ctx.rng
    gs = []
    for i, (s, vs) in enumerate(vals):
        n = len(vs)
        tup = [(v,) for v in vs]
        ps = list(itertools.product(range(n), repeat=2))
        tup += [tuple(vs[k] for k in p) for p in (ps if len(ps) <= pairs else r.sample(ps, pairs))]
        ts = n ** 3
        tup += [tuple(vs[k] for k in p) for p in itertools.product(range(n), repeat=3)] if ts <= triples else \
            [tuple(r.choice(vs) for _ in range(3)) for _ in range(triples)]
        tup += [tuple(r.choice(vs) for _ in range(r.randint(4, 7))) for _ in range(triples // 4)]
        tup += [(v,) * r.randint(2, 5) for v in vs]
        cases = [{"k": "xs", "ps": list(t), "cps": [0.0, 0.5, 1.0], "sps": r.choice([[0.0, 1.0], [0.3], [0.0]]), "reps": reps,
                  "seed": r.randint(0, 10**9)} for t in tup]
        for k in range(0, len(cases), 400):
            gs.append(ops.group("u%d.%d" % (i, k), s, cases[k:k + 400]))
    return gs


def exhaustive_muts(ctx, vals, reps=20):
    r = ctx.rng
    gs = []
    for i, (s, vs) in enumerate(vals):
        cases = []
        for v in vs:
            for p, rp in ((0.0, max(2, reps // 4)), (1.0, reps), (0.4, reps)):
                for sc in (PINNED, 1.0):
                    cases.append({"k": "muts", "v": v, "p": p, "scale": sc, "pinned": sc == PINNED, "reps": rp, "seed": r.randint(0, 10**9)})
        gs.append(ops.group("m%d" % i, s, cases))
    return gs


def chains(ctx, n, focus=None, steps=60, run_like=0.4):
    """random parameter spaces, populations and long mixed histories of operator applications"""
    r = ctx.rng
    gs = []
    for i in range(n):
        g = gen.Gen(r, hostile=0.1, extreme=0.15, max_nodes=r.choice([3, 6, 10, 16]))
        s = g.spec(r.choice(focus) if focus and r.random() < 0.7 else None)
        cases = []
        for _ in range(3):
            pin = r.random() < 0.5
            like = r.random() < run_like
            cases.append({"k": "chain", "seed": r.randint(0, 10**9), "reg": True, "xreg": not like,
                          "pop": [ops.init_typed(s)] if like else [ops.typed(g, s) for _ in range(r.randint(1, 5))],
                          "steps": steps, "cap": r.choice([2, 6, 12]), "pmut": r.choice([0.2, 0.5, 0.8]),
                          "cps": r.choice([[0, 0.5, 1], [1], [0.1]]), "sps": r.choice([[0, 0.5, 1], [0], [1]]),
                          "mps": r.choice([[0], [1], [0, 0.3, 1], [0.1]]), "scales": [PINNED] if pin else r.choice([[1.0], [1e-3, 1e3], [1e100]]),
                          "pinned": pin})
        gs.append(ops.group("c%d" % i, s, cases))
    return gs


def numbers(ctx, n):
    """mutations of numbers of every magnitude within every kind of bounds"""
    r = ctx.rng
    mag = lambda: r.choice([-1, 1]) * r.getrandbits(r.randint(1, 63))  # noqa: E731
    fmag = lambda: r.choice([-1, 1]) * r.random() * 10.0 ** r.randint(-300, 300)  # noqa: E731
    gs = []
    for i in range(n):
        kind = r.choice(["int", "int", "real"])
        f = mag if kind == "int" else fmag
        a, b = sorted([f(), f()])
        if a == b:
            continue
        lo, hi = r.choice([(None, None), (a, None), (None, b), (a, b)])

        def inside(x):
            x = x if lo is None else max(lo, x)
            return x if hi is None else min(hi, x)

        s = (kind, inside(f()), r.choice([1.0, 1e-3, 1e10, 1e300, 5e-324]), lo, hi)
        enc = tenc.ilimbs if kind == "int" else tenc.flimbs
        vs = [inside(f()) for _ in range(4)] + [x for x in (lo, hi) if x is not None]
        cases = [{"k": "muts", "v": [kind, enc(v)], "p": p, "scale": sc, "pinned": False, "reps": 10, "seed": r.randint(0, 10**9)}
                 for v in vs for p in (0.0, 1.0) for sc in (1.0, 1e3)]
        gs.append(ops.group("n%d" % i, s, cases))
    return gs


def wide_maps(ctx, n):
    """maps with many elements at and next to their size bounds: as they are, grown and shrunk over many steps"""
    r = ctx.rng
    gs = []
    for i in range(n):
        g = gen.Gen(r, hostile=0.05, extreme=0.1, max_nodes=2)
        el = g.spec(r.choice(["bool", "int", "real", "enum", "optional"]))
        b = r.choice([9, 12, 16, 17, 18, 24, 32, 33, 40, 64, 65, 100])
        mn, mx = r.choice([(None, b), (b, None), (b, b + 1), (b - 1, b), (b, b + 3)])
        lo, hi = mn or 0, mx if mx is not None else b + 3
        s = ("anon", el, r.choice([x for x in (lo, hi) if abs(x - b) < 4]), mn, mx)
        if i % 3 == 2:
            s = ("sub", {"a": s, "b": ("bool", True)})
        cases = []
        for _ in range(3):
            k = r.choice([x for x in range(max(lo, b - 2), min(hi, b + 3) + 1)])
            m = s if s[0] == "anon" else s[1]["a"]
            keys = r.sample(range(0, 3 * k + 5), k)
            v = ["anon", {str(x): ops.typed(g, m[1]) for x in keys}]
            if s[0] == "sub":
                v = ["sub", {"a": v, "b": ["bool", True]}]
            cases.append({"k": "muts", "v": v, "p": r.choice([0.3, 1.0]), "scale": 1.0, "pinned": False, "reps": 8, "seed": r.randint(0, 10**9)})
        cases.append({"k": "chain", "seed": r.randint(0, 10**9), "reg": True, "xreg": False, "pop": [ops.init_typed(s)], "steps": 25, "cap": 4,
                      "pmut": 0.7, "cps": [0, 0.5, 1], "sps": [0, 0.5], "mps": [0.1, 1], "scales": [1.0], "pinned": False})
        gs.append(ops.group("wm%d" % i, s, cases))
    return gs


def crowds(ctx, n):
    """recombinations of as many parents as a whole population, with the pressure low enough to reach the last ones"""
    r = ctx.rng
    gs = []
    for i in range(n):
        g = gen.Gen(r, hostile=0.05, extreme=0.1, max_nodes=r.choice([3, 5, 8]))
        s = g.spec(r.choice(["array", "anon", "sub", "variant", "optional", "sub"]))
        cases = []
        for _ in range(2):
            k = r.choice([10, 17, 25, 40, 65, 100])
            ps = [ops.typed(g, s) for _ in range(k)]
            cases.append({"k": "xs", "ps": ps, "cps": [0.0, 0.5, 1.0], "sps": [0.0, 0.05, 0.5], "reps": 6, "seed": r.randint(0, 10**9)})
            # all but the last few are equal
            cases.append({"k": "xs", "ps": [ps[0]] * (k - 3) + ps[-3:], "cps": [0.5, 1.0], "sps": [0.0], "reps": 6, "seed": r.randint(0, 10**9)})
        gs.append(ops.group("w%d" % i, s, cases))
    return gs


# ------------------------------------------------------------------ damaged lines
def _leaf_paths(v, p=()):
    k = v[0]
    if k in ("real", "int", "bool", "enum"):
        yield p, v
    elif k in ("sub", "anon"):
        for n, c in v[1].items():
            yield from _leaf_paths(c, p + (1, n))
    elif k == "array":
        for n, c in enumerate(v[1]):
            yield from _leaf_paths(c, p + (1, n))
    elif k == "variant":
        yield from _leaf_paths(v[2], p + (2,))
    elif k == "opt" and v[1]:
        yield from _leaf_paths(v[1][0], p + (1, 0))


def _at(v, p):
    for x in p:
        v = v[x]
    return v


def _set(v, p, w):
    v = copy.deepcopy(v)
    if not p:
        return w
    _at(v, p[:-1])[p[-1]] = w
    return v


def _maps(v, p=()):
    k = v[0]
    if k == "anon":
        yield p, v
    if k in ("sub", "anon"):
        for n, c in v[1].items():
            yield from _maps(c, p + (1, n))
    elif k == "array":
        for n, c in enumerate(v[1]):
            yield from _maps(c, p + (1, n))
    elif k == "variant":
        yield from _maps(v[2], p + (2,))
    elif k == "opt" and v[1]:
        yield from _maps(v[1][0], p + (1, 0))


def damage(ctx, lines, edit, want=30):
    """damaged copies of accepted lines must be rejected"""
    import random
    r = random.Random(2)
    todo = [(g, x) for g in r.sample(lines, min(len(lines), 120)) for x in r.sample(g[1:], min(len(g) - 1, 6))]
    out = []
    for g, x in todo:
        ln = json.loads(x)
        d = edit(ln, r)
        if d is not None:
            out.append([g[0], json.dumps(d) + "\n"])
        if len(out) >= want:
            break
    c0 = dict(ctx.coverage)
    bad = ops.judge(ctx, out, "damaged", n=1)
    ctx.coverage = c0
    if len(bad) != len(out) or not out:
        good = [x for g in out for x in g[1:] if x not in [b[1] for b in bad]]
        raise core.ToolError("damaged lines accepted: %d of %d, %s" % (len(out) - len(bad), len(out), good[:1]))
    ctx.add("damaged_lines_rejected", len(out))


STRANGE_INT = tenc.ilimbs(987654321987)


def damage_x(ln, r):
    if ln["t"] == "x":
        o, key = ln["o"], "o"
    elif ln["t"] == "xs" and ln["outs"]:
        o, key = ln["outs"][0], None
    else:
        return None
    ls = [(p, v) for p, v in _leaf_paths(o) if v[0] in ("int", "enum", "real")]
    if not ls:
        return None
    p, v = r.choice(ls)
    w = {"int": ["int", STRANGE_INT], "enum": ["enum", "no such"], "real": ["real", tenc.flimbs(1.2345678e77)]}[v[0]]
    o = _set(o, p, w)
    return dict(ln, o=o) if key else dict(ln, outs=[o])


def damage_mut(ln, r):
    if ln["t"] == "mut":
        v, w = ln["v"], ln["w"]
    elif ln["t"] == "muts" and ln["outs"]:
        v, w = ln["v"], ln["outs"][0]
    else:
        return None
    ms = [(p, m) for p, m in _maps(w)]
    ls = list(_leaf_paths(v))
    if ms and r.random() < 0.6:
        # two more elements
        p, m = r.choice(ms)
        if not m[1]:
            return None
        e = next(iter(m[1].values()))
        w = _set(w, p, ["anon", dict(m[1], **{"77777": e, "77778": e, "77779": e})])
    elif ln["p"] == "zero" and ls:
        p, x = r.choice(ls)
        y = {"bool": lambda: ["bool", not x[1]], "int": lambda: ["int", [x[1][0], x[1][1], (x[1][2] + 1) % 2**21]],
             "real": lambda: ["real", [x[1][0], x[1][1], (x[1][2] + 1) % 2**21]], "enum": lambda: ["enum", "no such"]}[x[0]]()
        w = _set(v, p, y)
    else:
        return None
    return dict(ln, w=w) if ln["t"] == "mut" else dict(ln, outs=[w])


# ------------------------------------------------------------------ checks
def run(ctx, exe, groups, tag, what):
    out = ops.execute(ctx, exe, groups, tag)
    bad = ops.judge(ctx, out, tag)
    ops.count(ctx, out)
    ops.report(ctx, bad, what)
    return out, bad


def sample(ctx, out, n=2):
    for g in out[:: max(1, len(out) // n)][:n]:
        ctx.samples.append({"space": json.loads(g[0])["s"], "line": json.loads(g[min(len(g) - 1, 2)])})


def check_c12(ctx):
    exe = core.build_harness(ctx, "ops")
    vals = universe.values(ctx)
    k = 5 if ctx.thorough else 1
    out, bad = run(ctx, exe, exhaustive_xs(ctx, vals, pairs=700 * k * k, triples=250 * k, reps=5 * k), "xs", "recombination")
    sample(ctx, out)
    out2, bad2 = run(ctx, exe, chains(ctx, 150 * k * k, steps=60 * k), "chain", "recombination")
    sample(ctx, out2, 1)
    out3, bad3 = run(ctx, exe, crowds(ctx, 60 * k * k), "crowd", "recombination")
    if not bad and not bad2 and not bad3:
        damage(ctx, out + out2, damage_x)
    ctx.assumptions = ["the distinct results of a bounded number of random draws per parent tuple are judged"]


def check_c13(ctx):
    exe = core.build_harness(ctx, "ops")
    vals = universe.values(ctx)
    k = 6 if ctx.thorough else 1
    out, bad = run(ctx, exe, exhaustive_muts(ctx, vals, reps=24 * k), "muts", "mutation")
    sample(ctx, out)
    out2, bad2 = run(ctx, exe, chains(ctx, 200 * k * k, focus=["anon", "anon", "variant", "optional", "sub"], steps=60 * k), "chain", "mutation")
    sample(ctx, out2, 1)
    out3, bad3 = run(ctx, exe, numbers(ctx, 150 * k * k), "nums", "mutation")
    _, bad4 = run(ctx, exe, wide_maps(ctx, 60 * k * k), "wmaps", "mutation")
    if not bad and not bad2 and not bad3 and not bad4:
        damage(ctx, out + out2, damage_mut)
    ctx.assumptions = ["what an added map element starts from is left open by the statement: an existing element or the initial value"]


# ---------------------------------------------------------------------------------------------- C17
def moderate(g, s):
    """the same space with scales a step of which is noticeable, and without far-out numbers"""
    k = s[0]
    if k in ("real", "int"):
        return (k, s[1], max(1.0, min(s[2], 1e6))) + s[3:]
    if k in ("sub", "variant"):
        return (k, {n: moderate(g, c) for n, c in s[1].items()}) + s[2:]
    if k in ("array", "anon", "optional"):
        return (k, moderate(g, s[1])) + s[2:]
    return s


def sel_groups(ctx, reps):
    r = ctx.rng
    gs = []

    def add(spec, ps, cps=(0.0, 0.5, 1.0)):
        cases = [{"k": "sel", "ps": ps, "sp": sp, "cp": cp, "reps": reps, "seed": r.randint(0, 10**9)}
                 for sp in (0.0, 0.1, 0.3, 0.5, 0.9, 1.0) for cp in cps]
        gs.append(ops.group("sel%d" % len(gs), spec, cases))

    ints = [["int", tenc.ilimbs(i * 7919 % 10007)] for i in range(100)]
    reals = [["real", tenc.flimbs(i * 7919 % 10007 / 8)] for i in range(100)]
    for n in (2, 3, 5, 12, 40, 70, 100):
        add(universe.I, ints[:n])
    for n in (2, 6):
        add(universe.R, reals[:n])
        ns = ["o%d" % ((i * 5) % 7) for i in range(n)]
        add(("enum", sorted(ns), ns[0]), [["enum", x] for x in ns])
        add(("variant", {x: ("const",) for x in sorted(ns)}, ns[0]), [["variant", x, ["const"]] for x in ns])
        add(("optional", universe.I, True), [["opt", [x]] for x in ints[:n]])
        add(("sub", {"x": universe.I}), [["sub", {"x": x}] for x in ints[:n]])
        add(("array", universe.I, 2), [["array", [x, x]] for x in ints[:n]], (0.0,))
        add(("sub", {"x": universe.I, "y": universe.R}), [["sub", {"x": x, "y": y}] for x, y in zip(ints[:n], reals)], (0.0,))
    for b in (True, False):
        add(universe.B, [["bool", b], ["bool", not b]])
    add(("optional", ("const",), True), [["opt", [["const"]]], ["opt", []]])
    add(("optional", ("const",), True), [["opt", []], ["opt", [["const"]]]])
    return gs


def damage_var(ln, r):
    if ln["t"] == "sel":
        c = list(reversed(ln["c"]))
        return dict(ln, c=c) if c[-1] > 1.5 * c[0] + 1000 else None
    if ln["t"] == "muts" and ln["p"] == "one":
        kinds = {v[0] for _, v in _leaf_paths(ln["v"])}
        return dict(ln, outs=ln["outs"] + [ln["v"]]) if kinds & {"bool", "enum"} or list(_maps(ln["v"])) else None
    if ln["t"] == "battery":
        return dict(ln, zeros=[False] * len(ln["zeros"]), ratios=[2] * len(ln["zeros"]))
    if ln["t"] == "moves" and ln["v"][0] in ("int", "real"):
        return dict(ln, outs=[ln["v"]] * len(ln["outs"]))
    return None


def battery_lines(ctx, exe, k):
    import random

    import battery
    ps = battery.problems(ctx)
    gs = []
    for p in ps:
        for s in range(k):
            r = random.Random("%s-%d-%d" % (p["name"], s, ctx.seed))
            sp, o = battery.space(p, r)
            gs.append(ops.group(p["name"], sp, [{"k": "bench", "name": p["name"], "opt": o, "budget": p["budget"], "conc": c, "jitter": j,
                                                 "seed": s} for c, j in ((1, 0), (r.choice([2, 4, 7]), 6))]))
    out = ops.execute(ctx, exe, gs, "bench")
    by = {p["name"]: {"t": "battery", "name": p["name"], "zeros": [], "ratios": []} for p in ps}
    other = []
    for g in out:
        for x in g[1:]:
            x = json.loads(x)
            if x["t"] == "bench":
                by[x["name"]]["zeros"].append(x["zero"])
                by[x["name"]]["ratios"].append(x["ratio"])
            else:
                other.append(x)
    ctx.add("benchmark_runs", sum(len(x["zeros"]) for x in by.values()))
    for b in by.values():
        rs = sorted(b["ratios"])
        ctx.log("%-13s %3d runs, optimum reached %3d, improvement: min %d, median %d"
                % (b["name"], len(rs), sum(b["zeros"]), rs[0] if rs else 0, rs[len(rs) // 2] if rs else 0))
    head = json.dumps({"i": "battery", "s": ["const"], "t": "spec"}) + "\n"
    return [[head] + [json.dumps(x) + "\n" for x in list(by.values()) + other[:20]]]


def check_c17(ctx):
    exe = core.build_harness(ctx, "ops")
    r = ctx.rng
    k = 5 if ctx.thorough else 1
    bt = battery_lines(ctx, exe, 40 * k)
    badb = ops.judge(ctx, bt, "battery", n=1)
    ops.report(ctx, badb, "known-optimum benchmark")
    vals = universe.values(ctx)
    gs = sel_groups(ctx, 20000 * k)
    for i, (s, vs) in enumerate(vals):
        cases = [{"k": "muts", "v": v, "p": 1.0, "scale": sc, "pinned": False, "reps": 12 * k, "seed": r.randint(0, 10**9)}
                 for v in vs for sc in (1.0, 1e-3)]
        cases += [{"k": "moves", "v": v, "reps": 250, "scale": 1.0, "seed": r.randint(0, 10**9)} for v in (vs if len(vs) < 30 else r.sample(vs, 20))]
        cases += [{"k": "mix", "ps": [r.choice(vs) for _ in range(r.randint(2, 3))], "reps": 400, "sp": r.choice([0, .2, .3]),
                   "seed": r.randint(0, 10**9)} for _ in range(30)]
        gs.append(ops.group("u%d" % i, s, cases))
    for i in range(60 * k * k):
        g = gen.Gen(r, hostile=0.05, extreme=0.0, max_nodes=r.choice([4, 8, 14]))
        s = moderate(g, g.spec())
        cases = [{"k": "moves", "v": v, "reps": 250, "scale": 1.0, "seed": r.randint(0, 10**9)}
                 for v in [ops.init_typed(s), ops.typed(g, s), ops.typed(g, s)]]
        cases += [{"k": "muts", "v": ops.typed(g, s), "p": 1.0, "scale": 1.0, "pinned": False, "reps": 10, "seed": r.randint(0, 10**9)}
                  for _ in range(4)]
        cases += [{"k": "mix", "ps": [ops.typed(g, s) for _ in range(r.randint(2, 3))], "reps": 400, "sp": r.choice([0, .2, .3]),
                   "seed": r.randint(0, 10**9)} for _ in range(4)]
        gs.append(ops.group("r%d" % i, s, cases))
    # wide structures mix like narrow ones
    for i in range(24 * k):
        g = gen.Gen(r, extreme=0.0)
        leaf = moderate(g, g.node(9, ["real", "int", "enum", "bool"][i % 4]))
        n = r.choice([4, 8, 9, 16, 30, 70])
        s = r.choice([("array", leaf, n), ("sub", {"p%d" % j: leaf for j in range(n)}), ("anon", leaf, n, None, None),
                      ("sub", {"q": ("array", leaf, n), "z": ("const",)})])
        cases = [{"k": "mix", "ps": [ops.typed(g, s) for _ in range(r.randint(2, 3))], "reps": 400, "sp": r.choice([0, .2, .3]),
                  "seed": r.randint(0, 10**9)} for _ in range(4 if n < 70 else 2)]
        cases += [{"k": "moves", "v": ops.typed(g, s), "reps": 120, "scale": 1.0, "seed": r.randint(0, 10**9)}]
        cases += [{"k": "muts", "v": ops.typed(g, s), "p": 1.0, "scale": 1.0, "pinned": False, "reps": 6, "seed": r.randint(0, 10**9)}]
        gs.append(ops.group("wide%d" % i, s, cases))
    # ... and deep ones like flat ones: the parents differ far inside only
    for i in range(30 * k):
        g = gen.Gen(r, extreme=0.0, max_nodes=3)
        leaf = lambda: moderate(g, g.node(9, r.choice(["real", "int", "enum", "bool"])))  # noqa: E731
        s = r.choice([("sub", {"p": leaf(), "q": leaf(), "r": leaf()}), ("array", leaf(), 3), ("anon", leaf(), 3, None, None)])
        vs = [ops.typed(g, s) for _ in range(6)]
        for _ in range(r.choice([3, 5, 6, 7, 8, 9, 12, 17, 20])):
            c = r.choice(["sub", "sub", "array", "anon", "variant", "optional"])
            if c == "sub":
                s, vs = ("sub", {"k": s, "c": ("const",)}), [["sub", {"k": v, "c": ["const"]}] for v in vs]
            elif c == "array" and r.random() < 0.3:
                s, vs = ("array", s, 2), [["array", [v, vs[0]]] for v in vs]
            elif c == "anon":
                s, vs = ("anon", s, 1, None, r.choice([None, 2])), [["anon", {"0": v}] for v in vs]
            elif c == "variant":
                s, vs = ("variant", {"u": s, "w": ("bool", True)}, "u"), [["variant", "u", v] for v in vs]
            elif c == "optional":
                s, vs = ("optional", s, True), [["opt", [v]] for v in vs]
        cases = [{"k": "mix", "ps": r.sample(vs, r.randint(2, 3)), "reps": 400, "sp": r.choice([0, .2, .3]),
                  "seed": r.randint(0, 10**9)} for _ in range(4)]
        cases += [{"k": "moves", "v": vs[0], "reps": 250, "scale": 1.0, "seed": r.randint(0, 10**9)},
                  {"k": "muts", "v": vs[0], "p": 1.0, "scale": 1.0, "pinned": False, "reps": 10, "seed": r.randint(0, 10**9)}]
        gs.append(ops.group("deep%d" % i, s, cases))
    out, bad = run(ctx, exe, gs, "var", "variation")
    sample(ctx, out, 2)
    ctx.samples.append(json.loads(bt[0][1]))
    if not bad and not badb:
        damage(ctx, out, damage_var)
        damage(ctx, bt, damage_var)
    ctx.assumptions = ["the stated factors and budgets are those of Battery.tla, a wide margin below what the search achieves",
                       "statistical statements are judged with margins of six standard deviations"]
