"""Checks of C01 (conformance of everything evaluated) and C11 (JSON codec, initial guess)."""
import json
import math
import os
import subprocess

import checks_run
import checks_var
import core
import gen
import known
import ops
import runs
import tenc
import twins
import universe


# ---------------------------------------------------------------------------------------------- C01
def rich_script(r, sid, big):
    """big: more than the population holds; "long": many generations of a small space"""
    sample = r.choice([1, 1, 1, 2, 3])
    g = gen.Gen(r, hostile=0.2, extreme=r.choice([0, 0.2, 0.6]), max_nodes=r.choice([3, 6, 10, 18]) if big != "long" else r.choice([3, 5, 7]))
    s = g.spec(r.choice([None, None, "anon", "optional", "variant", "array", "real", "int"]))
    guess, gnull = None, False
    if r.random() < 0.4:
        guess = g.value(s, tweak=r.choice([0.3, 0.9]), as_list=0.2)
        gnull = guess is None
    n = r.choice([1200, 1600, 2200]) if big == "long" else r.choice([150, 220]) if big else r.choice([20, 40, 70])
    auto = {"seed": r.randint(0, 10**6), "mode": r.choice(["fifo", "lifo", "starve", "rand", "rand"]), "batch": r.choice([1, 2, 3, 5]),
            "max": n + 50, "vals": {"kind": r.choice(["const", "mod", "int", "ties", "hash"] if sample > 1 else
                                                     ["inc", "dec", "huge", "gauss", "sphere", "ties", "hash", "const"]),
                                    "prej": r.choice([0, 0, 0.1, 0.5]), "pfail": 0}}
    if r.random() < 0.15:
        auto["term_at"] = r.randint(1, n)
    return runs.script(sid, s, conc=r.choice([1, 2, 4, 8]), n=n, target=None, sample=sample, auto=auto, steps=[], ints=sample > 1,
                       hon=[True, False, True], abrt=["rej", "acc"], guess=guess, guess_null=gnull)


def corner_specs():
    """bounds and scales at the edges of the number types"""
    M = 1.7976931348623157e308
    out = []
    for lo, hi, i in ((None, None, 0.0), (-M, M, 0.0), (0.0, 5e-324, 0.0), (None, 0.0, 0.0), (1.0, 1.0000000000000002, 1.0), (None, None, M),
                      (None, None, -M), (-1e-300, 1e-300, 0.0), (M / 2, M, M), (-0.0, None, 0.0), (-5.0, -4.0, -4.0)):
        for sc in (1.0, M, 5e-324, 1e300, 1e-300):
            out.append(("real", i, sc, lo, hi))
    I = 2**63
    for lo, hi, i in ((None, None, 0), (-I, I - 1, 0), (None, None, I - 1), (None, None, -I), (I - 2, I - 1, I - 1), (-I, -I + 1, -I), (0, 1, 0),
                      (2**53, None, 2**53 + 1), (None, -(2**53) - 1, -(2**53) - 1), (-3, 3, 3), (2**53 + 1, 2**53 + 2, 2**53 + 1)):
        for sc in (1.0, M, 5e-324, 0.3, 1e19):
            out.append(("int", i, sc, lo, hi))
    out += [("anon", ("bool", True), 0, None, 1), ("anon", ("bool", True), 1, 1, 2), ("anon", ("bool", True), 5, 4, 5), ("anon", ("const",), 0, 0, 1),
            ("anon", ("anon", ("bool", True), 1, 1, 2), 2, 1, 2), ("anon", ("anon", ("bool", True), 0, None, 1), 0, None, 2),
            ("anon", ("real", 0.0, 1.0, -1.0, 1.0), 40, 30, 41)]
    return out


def check_c01(ctx):
    P = ctx.prop
    exe = core.build_harness(ctx)
    exo = core.build_harness(ctx, "ops")
    r = ctx.rng
    k = 10 if ctx.thorough else 1
    scripts = [rich_script(r, "big%d" % i, True) for i in range(40 * k)] + [rich_script(r, "s%d" % i, False) for i in range(260 * k)]
    scripts += [rich_script(r, "long%d" % i, "long") for i in range(8 * k)]
    for i in range(60 * k):
        # guesses that just miss the space: refused, or (where the miss is none) evaluated as they are
        g = gen.Gen(r, hostile=0.1, extreme=0.3, max_nodes=r.choice([3, 6, 10]))
        s = g.spec(r.choice([None, "anon", "real", "int", "array", "variant"]))
        j = clamp(near(g, g.value(s, as_list=0.4)))
        scripts.append(runs.script("near%d" % i, s, conc=1, n=3, steps=[], guess=j, guess_null=j is None, auto={
            "seed": i, "mode": "fifo", "batch": 1, "max": 10, "vals": {"kind": "inc", "prej": 0}}))
    for i, (s, j) in enumerate(misfits(r, 2 if ctx.thorough else 1)):
        j = clamp(j)
        scripts.append(runs.script("mis%d" % i, s, conc=1, n=3, steps=[], guess=j, guess_null=j is None, auto={
            "seed": i, "mode": "fifo", "batch": 1, "max": 10, "vals": {"kind": "inc", "prej": 0}}))
    for i, s in enumerate(corner_specs()):
        for root in (s, ("sub", {"a": s, "o": ("optional", s, False)})):
            scripts.append(runs.script("c%d%s" % (i, root[0]), root, conc=r.choice([1, 3]), n=60, auto={
                "seed": i, "mode": "rand", "batch": 2, "max": 90, "vals": {"kind": r.choice(["inc", "gauss", "sphere", "dec"]), "prej": 0}}, steps=[]))
    ex, bad = checks_run.run_scripts(ctx, exe, scripts, "runs")
    vals = universe.values(ctx)
    gs = checks_var.wide_maps(ctx, 20 * k) + checks_var.chains(ctx, 80 * k, steps=80) + checks_var.exhaustive_muts(ctx, vals, reps=10 * k) + \
        checks_var.exhaustive_xs(ctx, vals, pairs=120 * k, triples=60 * k, reps=3)
    for i, s in enumerate(corner_specs()):
        v = ops.init_typed(s)
        gs.append(ops.group("corner%d" % i, s, [{"k": "chain", "seed": j, "reg": True, "pop": [v], "steps": 80, "cap": 10, "pmut": 0.8,
                                                 "cps": [0.5], "sps": [0.5], "mps": [1, 0.5], "scales": sc, "pinned": False}
                                                for j, sc in enumerate(([1.0], [1e-300, 1e300], [1e-9, 1e6]))]))
    out, bad2 = checks_var.run(ctx, exo, gs, "ops", "operator")
    checks_var.sample(ctx, out, 1)
    if not bad and not bad2:
        checks_run.sanity(ctx, ex)
        checks_var.damage(ctx, out, damage_conform)
    ctx.assumptions = ["objective values, rejections and completion orders are those of the generated environments"]


def damage_conform(ln, r):
    x = {"x": "o", "mut": "w"}.get(ln["t"])
    if x:
        w = ln[x]
    elif ln["t"] in ("xs", "muts") and ln["outs"]:
        w = ln["outs"][0]
    else:
        return None
    ls = list(checks_var._leaf_paths(w))
    if not ls:
        return None
    p, v = r.choice(ls)
    w = checks_var._set(w, p, r.choice([["const"], ["enum", "no such"], ["nonfinite"], ["sub", {}]]))
    return dict(ln, **({x: w} if x else {"outs": [w]}))


# ---------------------------------------------------------------------------------------------- C11
def near(g, j):
    """a document next to j"""
    r = g.r
    if isinstance(j, dict) and j and r.random() < 0.75:
        k = r.choice(list(j))
        d = dict(j)
        c = r.random()
        if c < 0.5:
            d[k] = near(g, j[k])
        elif c < 0.65:
            del d[k]
        elif c < 0.85:
            d[r.choice(["zz", "0", "7", "01", "-1", "+1", str(2**64 - 1), str(2**64), "1e3", k + " ", ""])] = j[k]
        else:
            d["nw%d" % r.randint(0, 9)] = d.pop(k)
        return d
    if isinstance(j, list) and r.random() < 0.8:
        d = list(j)
        c = r.random()
        if d and c < 0.5:
            i = r.randrange(len(d))
            d[i] = near(g, d[i])
        elif d and c < 0.75:
            d.pop()
        elif d:
            d.append(d[-1])
        else:
            d.append(None)
        return d
    if isinstance(j, (bool, str, dict, list)) or j is None:
        return r.choice([None, True, 0, 1.0, "x", "", [], {}, [j], {"a": j}, {"0": j}, str(j), j])
    return r.choice([float(j), int(max(-2**62, min(2**62, j))), j + 1, j - 1, -j, j * 1000, float(j) + 0.5, 2**63, 2**64 - 1, -(2**63), 1e300, -1e300, str(j), [j],
                     None, math.nextafter(float(j), 1e308), math.nextafter(float(j), -1e308), 0, -0.0])


def misfits(r, reps=1):
    """(space, guess): container sizes around the bounds for every element type, numbers around the bounds, at several places"""
    out = []
    for _ in range(reps):
        for kind in gen.TYPES:
            g = gen.Gen(r, hostile=0.1, extreme=0.2, max_nodes=5)
            el = g.spec(kind)
            for mn, mx in ((None, 2), (2, None), (1, 3), (2, 4)):
                init = r.randint(mn or 0, mx if mx is not None else (mn or 0) + 2)
                for n in sorted({x for b in (mn, mx) if b is not None for x in (b - 1, b, b + 1)}):
                    vs = [g.value(el) for _ in range(n)]
                    if r.random() < 0.3 and el[0] == "optional":
                        vs = [None] * n
                    out.append(wrap(r, g, ("anon", el, init, mn, mx), vs if r.random() < 0.4 else {str(i): v for i, v in enumerate(vs)}))
            for n in (1, 2, 3):
                out.append(wrap(r, g, ("array", el, 2), [g.value(el) for _ in range(n)]))
        for a, b in ((-2.0, 3.0), (0.1, 0.7), (-1e-300, 1e300)):
            g = gen.Gen(r, hostile=0.1, max_nodes=3)
            for x in (a, b):
                for y in (x, math.nextafter(x, -math.inf), math.nextafter(x, math.inf)):
                    out.append(wrap(r, g, ("real", (a + b) / 2, 1.0, a, b), y))
                    out.append(wrap(r, g, ("real", x, 1.0, a if x == a else None, b if x == b else None), y))
        for a, b in ((-2, 3), (2**53, 2**53 + 5), (-(2**63), 2**63 - 1)):
            g = gen.Gen(r, hostile=0.1, max_nodes=3)
            for x in (a, b):
                for y in (x, x - 1, x + 1):
                    out.append(wrap(r, g, ("int", a, 1.0, a, b), y))
    return out


def wrap(r, g, s, j):
    """(space, document) with both somewhere inside something else"""
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        c = r.randrange(6)
        if c == 0:
            s, j = ("sub", {"p": ("bool", True), "q": s}), {"p": False, "q": j}
        elif c == 1:
            s, j = ("optional", s, r.random() < 0.5), j
        elif c == 2:
            s, j = ("variant", {"u": ("bool", True), "w": s}, "u"), {"w": j}
        elif c == 3:
            s, j = ("array", s, 2), [g.value(s), j]
        elif c == 4:
            s, j = ("anon", s, 1, None, 3), {"0": g.value(s), "5": j}
        else:
            s, j = ("anon", s, 2, 1, None), [j, g.value(s)]
    return s, j


def clamp(j):
    """what the text form of JSON can carry"""
    if isinstance(j, dict):
        return {k: clamp(v) for k, v in j.items()}
    if isinstance(j, list):
        return [clamp(x) for x in j]
    if isinstance(j, int) and not isinstance(j, bool) and not -(2**63) <= j < 2**64:
        return float(j)
    if isinstance(j, float) and (math.isnan(j) or math.isinf(j)):
        return 0.25
    return j


def codec_groups(ctx, k):
    r = ctx.rng
    gs = []
    for i, (s, js) in enumerate(universe.jsons(ctx)):
        if not ctx.thorough and len(js) > 900:
            js = r.sample(js, 900)
        gs.append(ops.group("j%d" % i, s, [{"k": "guess", "j": j} for j in js]))
    for i, (s, vs) in enumerate(universe.values(ctx)):
        gs.append(ops.group("v%d" % i, s, [{"k": "init"}] + [{"k": "codec", "v": v} for v in vs]))
    for i in range(350 * k):
        g = gen.Gen(r, hostile=0.2, extreme=0.3, max_nodes=r.choice([2, 5, 9, 16]))
        s = g.spec(r.choice([None, None, "anon", "optional", "variant"]))
        cs = [{"k": "init"}]
        cs += [{"k": "codec", "v": ops.typed(g, s)} for _ in range(8)]
        for _ in range(8):
            cs.append({"k": "guess", "j": tenc.jenc(g.value(s, as_list=0.3))})
        for _ in range(20):
            cs.append({"k": "guess", "j": tenc.jenc(clamp(near(g, g.value(s, as_list=0.2))))})
        gs.append(ops.group("r%d" % i, s, cs))
    return gs


def damage_codec(ln, r):
    if ln["t"] == "guess":
        if ln["r"][0] == "ok":
            return dict(ln, r=["err", ""]) if r.random() < 0.5 else dict(ln, r=["ok", ["bool", True], ["s", "?"]])
        return dict(ln, r=["ok", ["bool", True], ["b", True]])
    if ln["t"] == "codec":
        return dict(ln, r=["err", "x"]) if r.random() < 0.5 else dict(ln, j=["s", "?"])
    return None


def jdec(j):
    k = j[0]
    if k == "z":
        return None
    if k == "f":
        return tenc.funlimbs(j[1])
    if k == "i":
        u = tenc.unlimbs(j[1]) ^ (1 << 63)
        return u - 2**64 if u >= 2**63 else u
    if k == "u":
        return int(tenc.funlimbs(j[1]))
    if k == "a":
        return [jdec(x) for x in j[1]]
    if k == "o":
        return {tenc.unesc(n): jdec(c) for n, c in (j[1].items() if j[1] else ())}
    if k == "s":
        return tenc.unesc(j[1])
    return j[1]


def guess_runs(ctx, exe, k):
    """whole runs: no guess / initial value as guess (twins); the best of a run seeds the next; broken guesses start nothing"""
    r = ctx.rng
    base, twin, brk = [], [], []
    for i in range(126 * k):
        late = i % 21 == 0
        g = gen.Gen(r, hostile=0.1, extreme=0.2, max_nodes=r.choice([3, 6, 10]) if not late else 4,
                    ambiguous=False)  # the same-run clause leaves out optionals of optionals or consts
        s = g.spec()
        n = r.choice([4, 12, 30]) if not late else r.choice([400, 700])
        kw = dict(conc=r.choice([1, 2, 4]), n=n, sample=1, steps=[], auto={
            "seed": i, "mode": r.choice(["fifo", "rand", "lifo"]), "batch": 2, "max": n + 70, "vals": {"kind": r.choice(["hash", "sphere", "inc"]), "prej": 0.1}})
        base.append(runs.script("b%d" % i, s, **kw))
        j = gen.init_json(s)
        twin.append(runs.script("t%d" % i, s, guess=j, guess_null=j is None, **kw))
        for _ in range(2):
            j = clamp(near(g, g.value(s, as_list=0.1)))
            brk.append(runs.script("n%d" % len(brk), s, guess=j, guess_null=j is None, **dict(kw, n=3)))
    for s, j in misfits(r, 2 if k > 1 else 1):
        j = clamp(j)
        brk.append(runs.script("n%d" % len(brk), s, guess=j, guess_null=j is None, **dict(kw, n=3)))
    e1, bad = checks_run.run_scripts(ctx, exe, base + brk, "guess")
    by = {s["sid"]: x for s, x in e1}
    e2, bad2 = checks_run.run_scripts(ctx, exe, twin, "twin")
    pairs = [("no guess / initial value as guess " + s["sid"], twins.observe(by["b" + s["sid"][1:]]), twins.observe(x), s)
             for s, x in e2 if "b" + s["sid"][1:] in by]
    bt = twins.judge(ctx, pairs, "init")
    twins.report(ctx, bt, "the spec's own initial value as the guess gives another run than no guess")
    # the reported best as the next guess
    nxt = []
    spec_of = {s["sid"]: s for s in base}
    for sid, s in spec_of.items():
        if sid not in by:
            continue
        ret = [json.loads(x) for x in by[sid] if '"t":"ret"' in x]
        if ret and ret[0]["ok"]:
            j = jdec(ret[0]["val"])
            nxt.append(dict(s, sid="next" + sid, guess=j, jguess=ret[0]["val"], guess_null=j is None, n=3))
    e3, bad3 = checks_run.run_scripts(ctx, exe, nxt, "next")
    ctx.add("best_seen_as_next_guess", len(e3))
    for s, x in e3:
        if any('"t":"ret"' in y and '"ok":false' in y and '"other"' in y for y in x):
            ctx.violation("run %s: the best individual of a run is refused as the guess of the next" % s["sid"], {"script": s})
    if not (bad or bad2 or bt or bad3):
        twins.sanity(ctx, pairs)


def cli_guesses(ctx, k):
    """through the tool: the first evaluation receives the guess; a guess that does not conform starts nothing"""
    cli = core.build_cli(ctx)
    r = ctx.rng
    jobs = []
    for i in range(48 * k):
        g = gen.Gen(r, hostile=0.0, extreme=0.0, max_nodes=6, floats_exact=True)
        s = g.spec()
        j = g.value(s, as_list=0.2)
        if i % 2:
            j = clamp(near(g, j))
        jobs.append((i, s, exact(j)))
    jobs += [(1000 + i, jobs[0][1], t) for i, t in enumerate(["", "{", "nul", "[1", "{\"a\":}", "\xff", "1 2"])]

    def one(job):
        i, s, j = job
        d = ctx.path("cli%d" % i)
        os.makedirs(d)
        with open(d + "/s.yaml", "w") as f:
            f.write(gen.spec_yaml(s))
        text = j if i >= 1000 else json.dumps(j)
        with open(d + "/obj.sh", "w") as f:
            f.write("printf '%%s\\n' \"$1\" >> %s/log\necho '{\"objFuncVal\": 1.0}'\n" % d)
        p = subprocess.run([cli, "-n", "1", "-s", d + "/s.yaml", b"--initial-guess=" + text.encode("latin-1" if i >= 1000 else "utf-8"), "/bin/sh", d + "/obj.sh"],
                           capture_output=True, timeout=60, cwd=d)
        log = open(d + "/log").read().splitlines() if os.path.exists(d + "/log") else []
        try:
            first = tenc.jenc(json.loads(log[0])) if log else ["none"]
        except ValueError:
            first = ["none"]
        try:
            out = tenc.jenc(json.loads(p.stdout.decode()))
        except ValueError:
            out = ["none"]
        head = json.dumps({"i": i, "s": tenc.spec_enc(s), "t": "spec"}) + "\n"
        ln = {"t": "cliguess", "j": ["none"] if i >= 1000 else tenc.jenc(j), "rc": p.returncode, "n": len(log), "first": first, "out": out,
              "msg": len(p.stderr.strip())}
        return [head, json.dumps(ln) + "\n"]

    out = core.pmap(one, jobs, core.CORES)
    bad = ops.judge(ctx, out, "cliguess", n=2)
    ops.report(ctx, bad, "initial guess through the tool")
    ctx.add("guesses_through_the_tool", len(out))


def exact(j):
    """numbers whose decimal form serde_json reads exactly (see KNOWN_FINDINGS)"""
    if isinstance(j, dict):
        return {k: exact(v) for k, v in j.items()}
    if isinstance(j, list):
        return [exact(x) for x in j]
    if isinstance(j, float):
        return round(j * 64) / 64 if abs(j) < 1e6 else float(int(j)) if abs(j) < 2**50 else j
    return j


def check_c11(ctx):
    exo = core.build_harness(ctx, "ops")
    exe = core.build_harness(ctx)
    k = 8 if ctx.thorough else 1
    out, bad = checks_var.run(ctx, exo, codec_groups(ctx, k), "codec", "codec")
    checks_var.sample(ctx, out, 3)
    if not bad:
        checks_var.damage(ctx, out, damage_codec)
    guess_runs(ctx, exe, k)
    cli_guesses(ctx, k)
    known.ulp_probe(ctx)
    ctx.assumptions = ["numbers are handed to the codec as f64/i64; reading them from text is serde_json's part (see KNOWN_FINDINGS)"]
