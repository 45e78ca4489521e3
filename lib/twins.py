"""Pairs of executions that have to be the same (spec/Twin.tla)."""
import json
import re

import core

CFG = """SPECIFICATION WSpec
CONSTANTS
  TraceFile = %s
  PROP = "%s"
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
"""
SEEN = ("start", "ret", "panic", "hang")


def observe(lines, seen=SEEN):
    out = []
    for x in lines:
        m = re.search(r'"t":"(\w+)"', x if len(x) < 400 else x[:200] + x[-200:])
        e = json.loads(x)
        if e["t"] in seen:
            out.append(x.rstrip("\n"))
    return out


NONE = '{"t":"none"}'


def judge(ctx, pairs, tag, n=core.CORES):
    """pairs: (name, events a, events b, payload); -> list of (pair, index of the first difference)"""
    parts = core.chunk(pairs, [len(p[1]) + len(p[2]) for p in pairs], n)

    def one(a):
        i, part = a
        tf = ctx.path("%s-%d.ndjson" % (tag, i))
        idx = []
        with open(tf, "w") as f:
            for p in part:
                for k in range(max(len(p[1]), len(p[2]))):
                    x = p[1][k] if k < len(p[1]) else NONE
                    y = p[2][k] if k < len(p[2]) else NONE
                    f.write('{"a":%s,"b":%s}\n' % (x, y))
                    idx.append((p, k))
        if not idx:
            return [], 0, 0
        r = core.tlc("Twin", CFG % (core.tla_str(tf), ctx.prop), ctx.work, "%s-%d" % (tag, i), timeout=1700)
        if not r.ok:
            raise core.ToolError("TLC failed on %s:\n%s" % (tf, r.out[-3000:]))
        first = {}
        for m in re.findall(r'<<"BADCASE", (\d+)>>', r.out):
            p, k = idx[int(m) - 1]
            first.setdefault(id(p), (p, k))
        return list(first.values()), r.stat()[1], len(idx)

    bad = []
    nl = 0
    for b, st, k in core.pmap(one, list(enumerate(parts)), n):
        bad += b
        nl += k
        ctx.add("states", st)
    ctx.add("steps_validated_against_impl", nl)
    ctx.log("%s: %d pairs, %d lockstep events, %d pairs differ" % (tag, len(pairs), nl, len(bad)))
    return bad


def report(ctx, bad, what, limit=5):
    for p, k in bad[:limit]:
        a = p[1][k] if k < len(p[1]) else NONE
        b = p[2][k] if k < len(p[2]) else NONE
        ctx.violation("%s (%s): event %d differs: %s / %s" % (what, p[0], k, a[:300], b[:300]),
                      {"pair": p[0], "event": k, "a": [json.loads(x) for x in p[1][:k + 1]][-50:],
                       "b": [json.loads(x) for x in p[2][:k + 1]][-50:], "input": p[3]})


def sanity(ctx, pairs):
    """damaged twins must be told apart"""
    todo = []
    for p in pairs:
        if len(p[1]) < 4:
            continue
        e = json.loads(p[1][2])
        if e["t"] == "start":
            todo.append((p[0], p[1], p[2][:2] + [json.dumps(dict(e, seed="123456789"))] + p[2][3:], None))
        todo.append((p[0], p[1], p[2][:-1], None))
        todo.append((p[0], p[1], p[2][:1] + p[2][2:], None))
        if len(todo) >= 12:
            break
    c0 = dict(ctx.coverage)
    bad = judge(ctx, todo, "damaged", n=1)
    ctx.coverage = c0
    if len(bad) != len(todo) or not todo:
        raise core.ToolError("differing twins accepted: %d of %d" % (len(todo) - len(bad), len(todo)))
    ctx.add("damaged_traces_rejected", len(todo))
