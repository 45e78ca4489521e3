"""Operator-level conformance: cases -> real mutate/crossover/codec/parser -> recorded lines -> OpsTrace.tla."""
import json
import os
import re

import core
import gen
import tenc

CFG = """SPECIFICATION OSpec
CONSTANTS
  TraceFile = %s
  PROP = "%s"
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
"""


# ------------------------------------------------------------------ typed values
def typed(g, s, tweak=0.6, sizes=None):
    """a random conforming value, typed and encoded"""
    r = g.r
    k = s[0]
    if k == "real":
        return ["real", tenc.flimbs(s[1] if r.random() > tweak else g.real(s[3], s[4]))]
    if k == "int":
        return ["int", tenc.ilimbs(s[1] if r.random() > tweak else g.int_(s[3], s[4]))]
    if k == "bool":
        return ["bool", r.random() < 0.5]
    if k == "enum":
        return ["enum", tenc.esc(r.choice(s[1]))]
    if k == "const":
        return ["const"]
    if k == "sub":
        return ["sub", {tenc.esc(n): typed(g, c, tweak) for n, c in s[1].items()}]
    if k == "array":
        return ["array", [typed(g, s[1], tweak) for _ in range(s[2])]]
    if k == "variant":
        n = r.choice(list(s[1]))
        return ["variant", tenc.esc(n), typed(g, s[1][n], tweak)]
    if k == "optional":
        return ["opt", [typed(g, s[1], tweak)] if r.random() < 0.6 else []]
    if k == "anon":
        lo = s[3] or 0
        hi = s[4] if s[4] is not None else lo + 3
        n = r.choice([lo, hi, r.randint(lo, hi)])
        keys = set()
        while len(keys) < n:
            keys.add(r.choice([r.randint(0, n + 2)] * 4 + [r.randint(0, 10**6), 2**64 - 1, 2**63]))
        return ["anon", {str(x): typed(g, s[1], tweak) for x in keys}]
    raise ValueError(k)


def init_typed(s):
    k = s[0]
    if k == "real":
        return ["real", tenc.flimbs(s[1])]
    if k == "int":
        return ["int", tenc.ilimbs(s[1])]
    if k == "bool":
        return ["bool", s[1]]
    if k == "enum":
        return ["enum", tenc.esc(s[2])]
    if k == "const":
        return ["const"]
    if k == "sub":
        return ["sub", {tenc.esc(n): init_typed(c) for n, c in s[1].items()}]
    if k == "array":
        return ["array", [init_typed(s[1]) for _ in range(s[2])]]
    if k == "variant":
        return ["variant", tenc.esc(s[2]), init_typed(s[1][s[2]])]
    if k == "optional":
        return ["opt", [init_typed(s[1])] if s[2] else []]
    if k == "anon":
        return ["anon", {str(i): init_typed(s[1]) for i in range(s[2])}]


def group(i, spec, cases):
    return {"i": i, "yaml": gen.spec_yaml(spec), "spec": tenc.spec_enc(spec), "cases": cases}


# ------------------------------------------------------------------ running and judging
def execute(ctx, exe, groups, tag, n=core.CORES):
    """-> list of line lists, one list per group (spec line first)"""
    parts = core.chunk(groups, [len(json.dumps(g)) + 40 * sum(c.get("steps", 0) + c.get("reps", 0) for c in g.get("cases", []))
                                for g in groups], n)

    def one(a):
        i, part = a
        ip, op = ctx.path("%s-%d.in" % (tag, i)), ctx.path("%s-%d.out" % (tag, i))
        with open(ip, "w") as f:
            for g in part:
                f.write(json.dumps(g) + "\n")
        p = core.harness(ctx, exe, [ip, op], timeout=1200, ok=tuple(range(-64, 256)))
        out = []
        with open(op) as f:
            for line in f:
                if line.startswith('{"i":') and ('"t":"spec"' in line[-12:] or '"t":"badspec"' in line[-15:]):
                    out.append([])
                if not out:
                    out.append([])
                out[-1].append(line)
        if p.returncode == 3:
            raise core.ToolError("harness: " + p.stderr[-2000:])
        if p.returncode != 0:
            # the code under test killed the process (stack overflow, abort, out of memory)
            ctx.violation("the process died with status %s while executing group %s: %s"
                          % (p.returncode, len(out), p.stderr[-300:]), {"input": part[min(len(out), len(part)) - 1]})
        os.remove(ip)
        os.remove(op)
        return out

    res = []
    for o in core.pmap(one, list(enumerate(parts)), n):
        res += o
    skipped = [g for g in res if g and '"t":"badspec"' in g[0][-15:]]
    res = [g for g in res if g and '"t":"badspec"' not in g[0][-15:]]
    ctx.add("specs_not_accepted", len(skipped))
    if len(skipped) > len(res):
        raise core.ToolError("most generated specs were rejected by the tool")
    return res


def judge(ctx, groups, tag="o", n=core.CORES, prop=None):
    """TLC judges every line; returns the rejected ones as (group lines, line)"""
    prop = prop or ctx.prop
    parts = core.chunk(groups, [sum(len(x) for x in g) for g in groups], n)

    def one(a):
        i, part = a
        tf = ctx.path("%s-%d.ndjson" % (tag, i))
        idx = []
        with open(tf, "w") as f:
            for g in part:
                for x in g:
                    f.write(x)
                    idx.append((g, x))
        r = core.tlc("OpsTrace", CFG % (core.tla_str(tf), prop), ctx.work, "%s-%d" % (tag, i), timeout=1700)
        if not r.ok:
            raise core.ToolError("TLC failed on %s:\n%s" % (tf, (r.out if len(r.out) < 5000 else r.out[:2500] + "\n...\n" + r.out[-1500:])))
        os.remove(tf)
        bad = [idx[int(m) - 1] for m in re.findall(r'<<"BADCASE", (\d+)>>', r.out)]
        return bad, r.stat()[1]

    bad = []
    for b, st in core.pmap(one, list(enumerate(parts)), n):
        bad += b
        ctx.add("states", st)
    nl = sum(len(g) for g in groups)
    ctx.add("steps_validated_against_impl", nl)
    ctx.log("%s: %d groups, %d lines, %d rejected" % (tag, len(groups), nl, len(bad)))
    return bad


def report(ctx, bad, what, limit=5):
    for g, x in bad[:limit]:
        ln = json.loads(x)
        ctx.violation("%s: %s is not allowed by the specification: %s" % (what, ln["t"], x[:300]),
                      {"spec": json.loads(g[0]), "line": ln})


def count(ctx, groups):
    c = {}
    for g in groups:
        for x in g:
            t = re.search(r'"t":"(\w+)"', x[-60:]) or re.search(r'"t":"(\w+)"', x)
            c[t.group(1)] = c.get(t.group(1), 0) + 1
    for k, v in c.items():
        ctx.add("lines_" + k, v)
