"""Run-level conformance: scripts -> real async_launch::launch -> recorded events -> RunTrace.tla."""
import json
import os

import core
import gen
import tenc

TRACE_CFG = """SPECIFICATION TSpec
CONSTANTS
  TraceFile = %s
  PROP = "%s"
  ValOf <- TraceVal
  Judged <- Judging
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
"""

SIMPLE = ("sub", {"x": ("real", 1.0, 1.0, -100.0, 100.0), "n": ("int", 3, 2.0, -10, 50)})


def script(sid, spec, conc=1, n=None, target=None, sample=1, guess=None, **kw):
    d = {"sid": sid, "yaml": gen.spec_yaml(spec), "spec": tenc.spec_enc(spec), "conc": conc, "n": n, "target": target,
         "sample": sample, "guess": guess}
    # text would lose the last bit of some numbers
    d["jguess"] = tenc.jenc(guess)
    d.update(kw)
    return d


# ------------------------------------------------------------------ executing and judging
def split_runs(path):
    """events file -> list of runs (lists of raw lines)"""
    runs = []
    with open(path) as f:
        for line in f:
            if line.startswith('{"cfg"') or '"t":"run"' in line[:4000] and json.loads(line)["t"] == "run":
                runs.append([])
            runs[-1].append(line)
    return runs


def execute(ctx, exe, scripts, tag="s", n=core.CORES, sub="run", env=None, prefix=(), cwd=None):
    """run scripts on the real code in parallel processes; returns list of (script, raw event lines)"""
    parts = core.chunk(scripts, [weight(s) for s in scripts], n)

    def one(args):
        i, part = args
        out = []
        todo = part
        k = 0
        while todo:
            sp, op = ctx.path("%s-%d-%d.scripts" % (tag, i, k)), ctx.path("%s-%d-%d.events" % (tag, i, k))
            with open(sp, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            p = core.harness(ctx, exe, [sub, sp, op], ok=(0, 7), timeout=1200, env=env, prefix=prefix, cwd=cwd)
            runs = split_runs(op)
            os.remove(sp)
            os.remove(op)
            out += list(zip(todo, runs))
            # 7: the watchdog recorded a hang and gave up on that process; go on behind it
            if p.returncode == 7:
                todo = todo[len(runs):]
                k += 1
                if k > 5:
                    break
            else:
                if len(runs) != len(todo):
                    raise core.ToolError("harness recorded %d of %d runs" % (len(runs), len(todo)))
                break
        return out

    res = []
    for r in core.pmap(one, list(enumerate(parts)), n):
        res += r
    order = {s["sid"]: i for i, s in enumerate(scripts)}
    res.sort(key=lambda x: order[x[0]["sid"]])
    return res


def weight(s):
    return 1 + (s.get("auto") or {}).get("max", 10)


def validate(ctx, execs, prop=None, tag="t", cfg=TRACE_CFG, module="RunTrace", n=core.CORES, report=True):
    """TLC judges the recorded runs; returns list of (script, lines, index of rejected event)"""
    prop = prop or ctx.prop
    parts = core.chunk(execs, [len(e[1]) for e in execs], n)

    def one(args):
        i, part = args
        bad = []
        rounds = 0
        states = 0
        while part and rounds < 4:
            rounds += 1
            tf = ctx.path("%s-%d.ndjson" % (tag, i))
            with open(tf, "w") as f:
                for _, lines in part:
                    f.writelines(lines)
            r = core.tlc(module, cfg % (core.tla_str(tf), prop), ctx.work, "%s-%d" % (tag, i), timeout=1500)
            states += r.stat()[1]
            os.remove(tf)
            if r.ok:
                break
            import re
            m = re.search(r'<<"REJECTED", (\d+)>>', r.out)
            if not m:
                raise core.ToolError("TLC failed on %s:\n%s" % (tf, (r.out if len(r.out) < 5000 else r.out[:2500] + "\n...\n" + r.out[-1500:])))
            d = int(m.group(1))
            for k, (s, lines) in enumerate(part):
                if d <= len(lines):
                    bad.append((s, lines, d - 1))
                    part = part[k + 1:]
                    break
                d -= len(lines)
        return bad, states

    bad = []
    for b, st in core.pmap(one, list(enumerate(parts)), n):
        bad += b
        ctx.add("states", st)
    ctx.add("traces_validated_against_impl", len(execs))
    if report:
        for s, lines, d in bad:
            report_run(ctx, s, lines, d, prop)
    return bad


def report_run(ctx, s, lines, d, prop):
    ev = json.loads(lines[d])
    ev.pop("val", None)
    ctx.violation("run %s: event %d is not allowed by Run.tla: %s" % (s["sid"], d, json.dumps(ev)[:400]),
                  {"script": s, "rejected_event_index": d, "events": [json.loads(x) for x in lines[:d + 1]][-400:]})


def corruptions(lines):
    """damaged copies of an accepted run that Run.tla must reject: list of (property, lines)"""
    import copy
    out = []
    evs = [json.loads(x) for x in lines]
    idx = lambda p: [i for i, e in enumerate(evs) if p(e)]  # noqa: E731
    starts = idx(lambda e: e["t"] == "start")
    dones = idx(lambda e: e["t"] == "done")
    recs = idx(lambda e: e["t"] == "rec")
    ret = idx(lambda e: e["t"] == "ret")
    terms = idx(lambda e: e["t"] == "term")
    quiets = idx(lambda e: e["t"] == "quiet")
    if not ret or not starts:
        return out
    ret = ret[0]
    cfg = evs[0]["cfg"]
    ok = evs[ret]["ok"]
    plain = all(evs[i]["o"] in ("acc", "rej") for i in dones) and not terms

    def put(prop, edit):
        e = copy.deepcopy(evs)
        e2 = edit(e)
        out.append((prop, [json.dumps(x) + "\n" for x in (e2 if e2 is not None else e)]))

    def again(e):
        x = copy.deepcopy(e[starts[-1]])
        x.update(e=99999, id="99999", seed="99999")
        return e[:ret] + [x] + e[ret:]

    if len(starts) > 2:
        put("C08", lambda e: e[starts[-1]].update(seed=e[starts[0]]["seed"]))
        put("C01", lambda e: e[starts[-1]].update(val=["o", {"bogus": ["z"]}]))
    if ok:
        put("C02", lambda e: e[ret].update(v=[2097153, 5, 5], isint=False))
        put("C14", lambda e: e[ret].update(acc=e[ret]["acc"] + 1))
        if plain and not cfg["target"]:
            put("C06", lambda e: e[ret].update(ok=False, err="fail", e=0))
        if not terms:
            put("C15", lambda e: e[:ret] + [{"t": "hang"}] + e[ret + 1:])
    if cfg["n"] and len(starts) == cfg["n"][0]:
        put("C03", lambda e: e[0]["cfg"]["n"].__setitem__(0, cfg["n"][0] - 1))
    if cfg["conc"] >= 2 and quiets and len(starts) >= cfg["conc"] and quiets[0] > starts[cfg["conc"] - 1]:
        put("C05", lambda e: e[0]["cfg"].update(conc=cfg["conc"] - 1))
    if recs:
        put("C14", lambda e: e[recs[-1]].update(seed="1000001"))
    if ok and plain and cfg["target"] and not cfg["n"]:
        put("C04", again)
    if terms and all(evs[i]["o"] in ("acc", "rej") for i in dones) and any(terms[0] < q for q in quiets) and not cfg["target"]:
        put("C04", again)
    fails = [i for i in dones if evs[i]["o"] == "fail"]
    if fails and not terms and not ok and evs[ret]["err"] == "fail":
        put("C06", lambda e: e[ret].update(e=12345))
        put("C06", again)
    return out
