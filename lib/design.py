"""Model checking of the run design (RunImpl.tla) against the monitor (Run.tla)."""
import core

CFG = """SPECIFICATION ISpec
CONSTANTS
 ValOf <- DesignVal
 Judged <- DesignJudged
 Conc = %(conc)d
 MaxEval = %(n)d
 TargetVal = %(target)d
 Sample = %(sample)d
 Cap = %(cap)d
 MinPop = %(minpop)d
 MaxCreated = %(created)d
 Vals = {%(vals)s}
 Outs = {%(outs)s}
 Hons = {%(hons)s}
 AbortKinds = {%(abrt)s}
 Terms = %(terms)s
 EnvAnytime = %(anytime)s
 Record = %(record)s
 Bug = "%(bug)s"
INVARIANT Allowed
%(props)s
CHECK_DEADLOCK FALSE
"""

BASE = dict(conc=2, n=3, target=99, sample=1, cap=1, minpop=1, created=3, vals="1,2", outs='"acc","rej","fail"',
            hons="TRUE,FALSE", abrt='"rej"', terms="TRUE", anytime="TRUE", bug="none", record="FALSE", props="")


def cfg(**kw):
    d = dict(BASE)
    d.update(kw)
    return CFG % d


# small exhaustive configurations
SMALL = [
    dict(conc=2, n=3, target=1),
    dict(conc=2, n=1),
    dict(conc=3, n=2, target=1, hons="TRUE"),
    dict(conc=2, n=0),
    dict(conc=1, n=4, target=1, cap=2, abrt='"rej","acc","fail"'),
    dict(conc=2, n=99, created=4, target=1, hons="TRUE", abrt='"acc","rej"'),
    dict(conc=2, n=4, sample=2, cap=1, minpop=1, outs='"acc","rej"', hons="TRUE"),
    dict(conc=1, n=5, sample=2, cap=1, minpop=1, target=1, outs='"acc","rej"', hons="TRUE"),
]
LARGE = SMALL + [
    dict(conc=3, n=4, target=1, hons="TRUE", abrt='"rej","acc"'),
    dict(conc=3, n=4, target=99, outs='"acc","rej"'),
    dict(conc=2, n=5, sample=2, cap=2, minpop=1, hons="TRUE", outs='"acc","rej"', target=1),
    dict(conc=3, n=99, created=5, hons="TRUE", outs='"acc","fail"', target=1),
    dict(conc=2, n=5, target=1, hons="TRUE", outs='"acc","rej","fail","nonf"'),
    dict(conc=1, n=7, sample=3, cap=2, minpop=1, outs='"acc","rej"', hons="TRUE", terms="FALSE"),
]
# design bugs the monitor has to notice: bug -> (configuration, properties of which one must be violated)
BUGS = {
    "evict_best": (dict(conc=1, n=3, cap=1, minpop=9, outs='"acc"', hons="TRUE"), {"C02"}),
    "best_from_pop": (dict(conc=1, n=5, sample=2, cap=1, minpop=1, outs='"acc"', hons="TRUE"), {"C02"}),
    "last_wins": (dict(conc=1, n=3, outs='"acc"'), {"C02"}),
    "batch_ignores_budget": (dict(conc=2, n=1), {"C03"}),
    "push_after_abort": (dict(conc=2, n=4), {"C04", "C06"}),
    "start_after_abort": (dict(conc=2, n=4), {"C04", "C06"}),
    "ignore_target": (dict(conc=2, n=4, target=1), {"C04"}),
    "return_at_once": (dict(conc=2, n=4), {"C04", "C06"}),
    "no_broadcast": (dict(conc=2, n=4), {"C04", "C06"}),
    "swallow_error": (dict(conc=2, n=4), {"C06"}),
    "no_replacement_for_rejected": (dict(conc=2, n=4), {"C05", "C03"}),
    "no_record_for_rejected": (dict(conc=2, n=3), {"C14"}),
    "reeval_keeps": (dict(conc=2, n=5, sample=2, cap=3, minpop=1, outs='"acc"', hons="TRUE", terms="FALSE"), {"C05", "C08"}),
    "seed_is_id": (dict(conc=1, n=5, sample=2, cap=3, minpop=1, outs='"acc"', hons="TRUE", terms="FALSE"), {"C08"}),
}


def check_design(ctx, configs, name="design"):
    def one(a):
        i, c = a
        r = core.tlc("RunImpl", cfg(**c), ctx.work, "%s%d" % (name, i), workers=2, heap="3g", timeout=3000)
        if not r.ok:
            raise core.ToolError("design model violates the monitor in %s:\n%s" % (c, r.out[-3000:]))
        return r.stat()

    st = core.pmap(one, list(enumerate(configs)), 4)
    ctx.add("transitions", sum(s[0] for s in st))
    ctx.add("states", sum(s[1] for s in st))
    ctx.log("design: %d configurations, %d states" % (len(configs), sum(s[1] for s in st)))


def check_bugs(ctx, only=None):
    """every planted design bug must be found"""
    def one(b):
        c, ps = BUGS[b]
        c = {k: v for k, v in c.items() if k != "bugx"}
        r = core.tlc("RunImpl", cfg(bug=b, **c), ctx.work, "bug_" + b, workers=1, heap="2g", timeout=600)
        import re
        m = re.findall(r'/\\ bad = \{([^}]*)\}', r.out)
        got = set(re.findall(r"C\d\d", m[-1])) if m else set()
        return b, ps, got

    todo = [b for b in BUGS if only is None or BUGS[b][1] & {only}]
    for b, ps, got in core.pmap(one, todo, 8):
        if not (got & ps):
            raise core.ToolError("design bug %s not detected (bad = %s)" % (b, got))
    ctx.log("design bugs detected: " + ", ".join(todo))
    ctx.add("planted_design_bugs_detected", len(todo))


# ------------------------------------------------------------------ schedules for the real code
def schedules(ctx, name, simulate=0, **kw):
    """list of (schedule) from RunGen.tla; simulate: number of random behaviours instead of all of them"""
    d = dict(hons="TRUE", anytime="FALSE", record="TRUE")
    d.update(kw)
    text = cfg(**d).replace("SPECIFICATION ISpec", "SPECIFICATION GSpec") + "INVARIANT PrintSched\n"
    extra = ["-simulate", "num=%d" % simulate, "-depth", "200", "-seed", str(ctx.seed)] if simulate else []
    r = core.tlc("RunGen", text, ctx.work, name, workers=1 if simulate else 4, heap="4g", extra=extra, timeout=1500)
    import json, re
    out = set(re.findall(r'<<"SCHED", "(.*)">>', r.out))
    if not out or "Error:" in r.out:
        raise core.ToolError("RunGen: " + r.out[-2000:])
    ctx.add("states", r.stat()[1])
    return [json.loads(x.replace('\\"', '"')) for x in sorted(out)], kw


def to_script(sched, kw, sid, spec, mk):
    """model schedule -> script for the harness"""
    c = dict(BASE)
    c.update(kw)
    steps, cur, hon, abrt = [], {"rel": []}, {}, {}
    for x in sched:
        if x[0] == "rel":
            if cur.get("term"):
                steps.append(cur)
                cur = {"rel": []}
            cur["rel"].append([x[1], {"nonf": "nan"}.get(x[2], x[2]), float(x[3])])
        elif x[0] == "term":
            cur["term"] = True
        elif x[0] == "quiet":
            if cur["rel"] or cur.get("term"):
                steps.append(cur)
            cur = {"rel": []}
        elif x[0] == "hon":
            hon[x[1]] = x[2]
        elif x[0] == "abrt":
            abrt[x[1]] = x[2]
    if cur["rel"] or cur.get("term"):
        steps.append(cur)
    k = max(hon, default=0) + 1
    return mk(sid, spec, conc=c["conc"], n=None if c["n"] == 99 else c["n"], ints=True,
              target=None if c["target"] == 99 else float(c["target"]), sample=c["sample"],
              hon=[hon.get(i, True) for i in range(k)] + [True],
              abrt=[abrt.get(i, "rej") for i in range(k)] + ["rej"], steps=steps,
              auto={"seed": 1, "mode": "fifo", "max": 60, "vals": {"kind": "const"}})
