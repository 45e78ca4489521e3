"""Process-level runs: C07, and the process-level part of the run properties."""
import copy
import json
import os
import re

import core
import gen
import procs
import runs
import tenc

CFG = """SPECIFICATION %(spec)s
CONSTANTS
 ValOf <- ImplVal
 Judged <- ImplJudged
 Conc = %(conc)d
 MaxEval = %(n)d
 TargetVal = %(target)d
 MaxCreated = %(created)d
 Vals = {%(vals)s}
 Outs = {%(outs)s}
 Kids = {%(kids)s}
 Timed = %(timed)s
 Ints = %(ints)s
 EnvAnytime = %(anytime)s
 Record = %(record)s
 Bug = "%(bug)s"
INVARIANT %(inv)s
CHECK_DEADLOCK FALSE
"""
BASE = dict(spec="PSpec", conc=2, n=3, target=1, created=5, vals="1,2", outs='"acc","rej","fail"', kids='"plain","grand","hold","ign"',
            timed="TRUE", ints="TRUE", anytime="TRUE", record="FALSE", bug="none", inv="Allowed")
BUGS = ["leader_only", "sigterm", "no_kill", "no_kill_if_leader_gone", "no_guard", "no_guard_on_drop", "early", "no_timeout"]
DESIGN = [dict(), dict(conc=3, n=3, target=99, kids='"grand","hold"', outs='"acc","fail"', vals="2"),
          dict(conc=2, n=99, created=4, kids='"plain","ign"', outs='"acc","fail"')]
DESIGN_THOROUGH = [dict(conc=3, n=4, kids='"plain","grand","hold"'), dict(conc=2, n=5), dict(conc=3, n=99, created=5, kids='"grand","hold"')]

# enumerated schedules for the real tool
FAM = [dict(conc=2, n=3, kids='"grand"', timed="FALSE", outs='"acc","fail"'),
       dict(conc=2, n=2, kids='"plain","grand","hold"', timed="TRUE", outs='"acc","fail"', vals="1,2"),
       dict(conc=3, n=4, kids='"ign"', timed="FALSE", outs='"acc"', vals="1,2"),
       dict(conc=2, n=3, target=99, kids='"grand","hold"', timed="TRUE", outs='"acc"', vals="2", ints="FALSE")]


def design(ctx):
    todo = [(c, "none") for c in DESIGN + (DESIGN_THOROUGH if ctx.thorough else [])] + [({}, b) for b in BUGS]

    def one(a):
        i, (c, b) = a
        d = dict(BASE, bug=b)
        d.update(c)
        r = core.tlc("ProcImpl", CFG % d, ctx.work, "pd%d" % i, workers=2, heap="3g", timeout=3000)
        if b == "none" and not r.ok:
            raise core.ToolError("process design violates the monitor in %s:\n%s" % (c, r.out[-3000:]))
        if b != "none":
            m = re.findall(r'/\\ bad = \{([^}]*)\}', r.out)
            if not m or "C07" not in m[-1]:
                raise core.ToolError("design bug %s not detected" % b)
        return r.stat() if b == "none" else (0, 0)

    st = core.pmap(one, list(enumerate(todo)), 4)
    ctx.add("transitions", sum(s[0] for s in st))
    ctx.add("states", sum(s[1] for s in st))
    ctx.add("planted_design_bugs_detected", len(BUGS))
    ctx.log("process design: %d states; design bugs detected: %s" % (sum(s[1] for s in st), ", ".join(BUGS)))


def schedules(ctx, name, **kw):
    d = dict(BASE, spec="GSpec", anytime="FALSE", record="TRUE", inv="PrintSched")
    d.update(kw)
    r = core.tlc("ProcGen", CFG % d, ctx.work, name, workers=2, heap="3g", timeout=900)
    out = set(re.findall(r'<<"SCHED", "(.*)">>', r.out))
    if not out or "Error:" in r.out:
        raise core.ToolError("ProcGen: " + r.out[-2000:])
    ctx.add("states", r.stat()[1])
    return [json.loads(x.replace('\\"', '"')) for x in sorted(out)], d


KIND = {"plain": {}, "grand": {"grands": 1}, "hold": {"hold": True}, "ign": {"grands": 1, "ign": True}}


def to_script(x, d, sid, r):
    kids = {}
    steps = []
    for a in x:
        if a[0] == "kid":
            kids[a[1]] = a[2]
        elif a[0] in ("rel", "timeout", "int"):
            steps.append(a)
    k = [dict(KIND[kids.get(e, "plain")], fail=r.choice(["exit", "sig", "out"])) for e in range(max(kids, default=0) + 1)]
    timed = any(s[0] == "timeout" for s in steps)
    return procs.script(sid, conc=d["conc"], n=None if d["n"] == 99 else d["n"], target=None if d["target"] == 99 else float(d["target"]),
                        kids=k, steps=steps, k=r.choice([450, 600]) if timed else (20000 if r.random() < 0.3 else None),
                        vals={"kind": "const"})


def random_script(r, sid, prof):
    conc = r.choice(prof.get("conc", [1, 2, 2, 3, 4, 6]))
    n = r.choice(prof.get("n", [None, None, 1, 2, 4, 7, 12]))
    sample = r.choice(prof.get("samples", [1]))
    target = None
    if r.random() < prof.get("ptarget", 0.3):
        target = r.choice([0.0, 20.0, 95.0, 98.0])
    kid = lambda: {"grands": r.choice(prof.get("grands", [0])), "ign": r.random() < 0.3, "fail": r.choice(["exit", "sig", "out"]),  # noqa: E731
                   "hold": r.random() < prof.get("phold", 0), "err": r.choice(["", "", "ff00626c61680a"]),
                   "fmt": r.choice(['{"objFuncVal": %s}', '{"objFuncVal":%s}\n', '\n { "objFuncVal"\t: %s } \n']),
                   "rejfmt": r.choice(["{}", '{"objFuncVal": null}', ' {\n}\n'])}
    s = procs.script(sid, runs.SIMPLE if r.random() < 0.5 else gen.awkward(r) if r.random() < 0.25 else gen.Gen(r, hostile=r.choice([0.1, 0.1, 0.8]), extreme=0.05, max_nodes=5).spec(), conc=conc, n=n,
                     target=target, sample=sample, kids=[kid() for _ in range(r.choice([1, 2, 3, 5]))], rseed=r.randint(0, 10**6),
                     max=r.choice(prof.get("max", [3, 8, 15])), explicit=r.random() < 0.5, verbose=r.random() < 0.25,
                     ints=r.choice([1, 1, 2, 5]),
                     vals={"kind": "int" if sample > 1 else r.choice(["dec", "inc", "ties", "rand", "bits", "bits", "huge"]),
                           "prej": r.choice([0, 0, 0.3, 0.8]), "pfail": r.choice(prof.get("pfail", [0, 0, 0.05, 0.2]))})
    if r.random() < prof.get("pk", 0):
        s["k"] = r.choice([400, 600] if r.random() < 0.8 else [1300, 1500, 1800, 2400])
        s["steps"] = [["rel", r.randint(0, 5), "auto", 0.0] for _ in range(r.randint(0, 3))] + [["timeout"]]
        s["steps"] += [["rel", r.randint(0, 5), "auto", 0.0] for _ in range(r.randint(0, 3))]
        if r.random() < 0.4:
            s["steps"] += [["timeout"]]
        s["steps"] += [["int"]]
    elif r.random() < prof.get("pafter", 0):
        s["after"] = r.choice([300, 500] if r.random() < 0.7 else [1400, 1700])
        s["steps"] = [["rel", r.randint(0, 5), "auto", 0.0] for _ in range(r.randint(0, 3))] + [["after"]]
        s["vals"]["pfail"] = 0
        s["target"] = None
        if s["n"] is not None:
            s["n"] = max(s["n"], 6)
    elif r.random() < prof.get("pint", 0.3):
        s["steps"] = [["rel", r.randint(0, 5), "auto", 0.0] for _ in range(r.randint(0, 6))] + [["int"]]
    elif r.random() < prof.get("pburst", 0):
        s["steps"] = [["burst", r.randint(1, conc)] for _ in range(r.randint(1, 4))]
    if s["sample"] > 1:
        s["target"] = None
    return s


def judge(ctx, cli, child, scripts, what, n=20):
    ex = procs.execute(ctx, cli, child, scripts, n=n)
    nev = sum(len(l) for _, l in ex)
    ctx.add("events_validated", nev)
    ctx.add("process_level_runs", len(ex))
    ctx.add("objective_function_processes", sum(sum('"t": "start"' in x for x in l) for _, l in ex))
    bad = runs.validate(ctx, ex, tag="p" + what, module="ProcTrace", n=max(1, min(core.CORES, nev // 3000)), report=False)
    ctx.log("%s: %d runs of the tool, %d events, %d rejected" % (what, len(ex), nev, len(bad)))
    # a stalled machine must not look like a stalled tool: it has to happen again
    confirmed = []
    for s, lines, d in bad[:8]:
        ctx.log("rejected: %s event %d %s" % (s["sid"], d, lines[d][:160]))
        if os.environ.get("VERIF_DEBUG"):
            print("".join(x[:220].rstrip() + "\n" for x in lines[1:d + 1]), json.dumps({k: v for k, v in s.items() if k not in ("yaml", "spec")}))
        again = procs.execute(ctx, cli, child, [dict(s, sid="%s-again%d" % (s["sid"], i)) for i in range(3)], n=3)
        b2 = runs.validate(ctx, again, tag="again", module="ProcTrace", n=1, report=False)
        if b2:
            confirmed.append((s, lines, d))
            runs.report_run(ctx, s, lines, d, ctx.prop)
            if len(confirmed) >= 4:
                break
    if bad and not confirmed:
        ctx.log("none of them happens again")
        ctx.add("rejections_not_reproduced", len(bad))
    if ex and len(ctx.samples) < 5:
        s, l = ex[len(ex) // 2]
        ev = [json.loads(x) for x in l[1:16]]
        for e in ev:
            e.pop("val", None)
        ctx.samples.append({"family": what, "kids": s.get("kids"), "steps": s["steps"][:6], "events": ev})
    return ex, confirmed


def damages(prop, lines):
    """damaged copies of an accepted execution that Proc.tla must reject"""
    evs = [json.loads(x) for x in lines]
    out = []

    def put(p, edit):
        e = copy.deepcopy(evs)
        e2 = edit(e)
        out.append((p, [json.dumps(x) + "\n" for x in (e2 if e2 is not None else e)]))

    cfg = evs[0]["cfg"]
    for i, e in enumerate(evs):
        if e["t"] == "procs":
            put("C07", lambda x: x[i].update(alive=1))
        if e["t"] == "kill" and cfg["k"] and not any(y["t"] in ("term", "ret") or y.get("o") == "fail" for y in evs[:i]) and not cfg["target"]:
            put("C07", lambda x: x[i].update(ms=cfg["k"][0] - 1))
            put("C07", lambda x: x[i].update(left=1))
            put("C07", lambda x: x[:i] + [{"t": "overdue", "e": e["e"]}] + x[i:])
        before = evs[:i]
        calm = not cfg["k"] and not any(y["t"] in ("term", "kill", "taken") or y.get("o") in ("fail", "nonf") for y in before)
        if e["t"] == "ret" and e.get("ok"):
            put("C15", lambda x: x[:i] + [{"t": "hang"}])
            if cfg["sample"] == 1:
                worse = [y["v"] for y in before if y.get("o") == "acc" and tenc.funlimbs(y["v"]) != tenc.funlimbs(e["v"])]
                if worse and calm:
                    put("C02", lambda x: x[i].update(v=worse[-1]))
            if cfg["n"] and calm and not cfg["target"]:
                put("C03", lambda x: x[i].update(acc=e["acc"] + 1))
                last = max([j for j, y in enumerate(before) if y["t"] == "done"], default=0)
                if last:
                    put("C03", lambda x: x[:last] + x[i:])
        if e["t"] == "ret" and not e.get("ok") and e.get("err") not in ("noind",) and any(y.get("o") == "fail" for y in before):
            put("C06", lambda x: x[i].update(ok=False, err="noind", acc=0, rej=0))
        starts = [j for j, y in enumerate(before) if y["t"] == "start"]
        if e["t"] == "start" and starts:
            put("C08", lambda x: x[i].update(seed=evs[starts[0]]["seed"]))
        if e["t"] == "quiet" and calm and starts and i - starts[-1] == 1 and not cfg["target"]:
            put("C05", lambda x: x[:starts[-1]] + x[i:])
        if e["t"] == "bestfile" and cfg["sample"] == 1:
            put("C14", lambda x: x[i].update(val=["s", "other"]))
        if e["t"] == "taken" and cfg["after"]:
            put("C04", lambda x: x[i].update(ms=cfg["after"][0] - 1))
    return [x for x in out if x[0] == prop]


def sanity(ctx, ex):
    todo = []
    for s, l in ex:
        d = damages(ctx.prop, l)
        todo += [(s, x) for _, x in d[:4]]
        if len(todo) > 8:
            break
    c0 = dict(ctx.coverage)
    res = core.pmap(lambda a: runs.validate(ctx, [a[1]], tag="psan%d" % a[0], module="ProcTrace", report=False, n=1), list(enumerate(todo[:8])), 8)
    ctx.coverage = c0
    if any(not b for b in res):
        raise core.ToolError("a damaged process trace was accepted")
    ctx.add("damaged_traces_rejected", len(res))
    ctx.log("damaged process traces rejected: %d" % len(res))


PROFILES = {
    "C02": (40, dict(pfail=[0, 0, 0.05])),
    "C03": (40, dict(n=[1, 2, 3, 5, 9, 15], pint=0.1, pfail=[0], ptarget=0.05, max=[30])),
    "C04": (90, dict(pint=0.6, pafter=0.15, ptarget=0.5, grands=[0, 1], n=[None, None, 12], pfail=[0])),
    "C05": (60, dict(conc=[1, 2, 3, 4, 6, 10], n=[None, 4, 8, 16, 25], pint=0.1, ptarget=0.05, pfail=[0], max=[12, 20])),
    "C06": (90, dict(pfail=[0.1, 0.3, 0.5], pint=0.1, ptarget=0.2, conc=[1, 2, 3, 4, 6])),
    "C08": (30, dict(samples=[1, 2], n=[30, 45], conc=[1, 3], pint=0, ptarget=0, pfail=[0], max=[60])),
    "C14": (70, dict(pint=0.3, pk=0.1, pafter=0.05)),
    "C15": (60, dict(pint=0.2, pk=0.1, pfail=[0, 0.2])),
}


def extra(ctx):
    """process-level part of the check of a run property"""
    cli, child = core.build_cli(ctx), procs.build_child(ctx)
    k, prof = PROFILES[ctx.prop]
    ss = [random_script(ctx.rng, "p%d" % i, prof) for i in range(k * (10 if ctx.thorough else 1))]
    ex, bad = judge(ctx, cli, child, ss, "proc")
    if not bad:
        sanity(ctx, ex)
    if ctx.prop == "C05":
        judge(ctx, cli, child, [wide_script(ctx.rng, "w%d" % i, None) for i in range(12 if ctx.thorough else 3)], "wide", n=2)
    return bad


def wide_script(r, sid, limit):
    """many processes at a time, perhaps under a time limit that all of them exceed"""
    conc = r.choice([80, 120, 160]) if limit is None else limit[0]
    n = conc + r.choice([0, 7, 30]) if limit is None else conc
    kid = {"grands": 0, "ign": False, "fail": "exit", "hold": False, "err": ""}
    s = procs.script(sid, runs.SIMPLE, conc=conc, n=n, target=None, sample=1, kids=[kid], rseed=r.randint(0, 10**6), max=n + 50,
                     vals={"kind": "inc", "prej": r.choice([0, 0.3]), "pfail": 0})
    if limit is not None:
        s["k"] = limit[1]
        s["steps"] = [["timeout"]]
    return s


def check_c07(ctx):
    cli, child = core.build_cli(ctx), procs.build_child(ctx)
    design(ctx)
    r = ctx.rng
    ss = []
    for sch, d in core.pmap(lambda a: schedules(ctx, "pg%d" % a[0], **a[1]), list(enumerate(FAM)), 4):
        if not ctx.thorough and len(sch) > 90:
            sch = r.sample(sch, 90)
        for x in sch:
            ss.append(to_script(x, d, "g%d" % len(ss), r))
    ctx.add("schedules_from_spec", len(ss))
    ex, b1 = judge(ctx, cli, child, ss, "gen")
    k = 10 if ctx.thorough else 1
    rs = []
    for i in range(220 * k):
        prof = dict(grands=[0, 0, 1, 2], phold=r.choice([0, 0, 0.3]), pk=0.35, pafter=0.08, pint=0.35, pburst=0.5, pfail=[0, 0.1, 0.3],
                    conc=[1, 2, 3, 4, 6, 8])
        rs.append(random_script(r, "r%d" % i, prof))
    ex2, b2 = judge(ctx, cli, child, rs, "rand", n=22)
    ws = [wide_script(r, "w%d" % i, x) for i, x in enumerate([(100, 1500), (40, 2500)] + ([(20, 6000), (150, 1200), (60, 700)] if ctx.thorough else []))]
    judge(ctx, cli, child, ws, "wide", n=2)
    if not b1 and not b2:
        sanity(ctx, ex2)
        sanity(ctx, ex)
    ctx.assumptions = ["whether a process is alive is read from /proc (by owner: every execution of the tool has a user id of its own)",
                       "one and a half seconds after the tool has returned, a process that was killed is dead",
                       "times are judged one-sidedly: a process counts as killed early only if its whole observed life is shorter than the limit"]
