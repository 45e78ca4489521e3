"""Checks of run-level properties: C02, C03, C04, C05 (in part), C06, C08, C14 (in part), C15 (in part)."""
import json

import core
import design
import gen
import runs
import tenc

FLOATY = ["inc", "dec", "const", "ties", "zeros", "huge", "hugeinc", "mod", "gauss", "sphere", "hash"]
EXPS = [0, 0, 0, 0, 60, -60, 960, -900]  # objective values of a run are multiplied by 2^EXPS
INTY = ["bigint", "split", "inc", "dec", "const", "ties", "mod", "int", "hash", "idmean", "idmean", "ties"]


def random_script(r, sid, prof, spec=None):
    """a longer random run; the environment is driven by harness/src/run.rs (auto)"""
    sample = r.choice(prof.get("samples", [1]))
    conc = r.choice(prof.get("conc", [1, 1, 2, 3, 4, 8]))
    ns = prof.get("n", [None, 0, 1, 2, 3, 5, 8, 13, 30, 60])
    n = r.choice(ns)
    if n is not None and r.random() < 0.1:
        n = max(0, conc + r.choice([-1, 0, 1]))
    kind = r.choice(prof.get("kinds", INTY if sample > 1 else FLOATY))
    target = None
    if r.random() < prof.get("ptarget", 0.3):
        if kind in ("huge", "hugeinc"):
            target = r.choice([-1e299, 0.0, -1e300])
        elif kind == "zeros":
            target = r.choice([0.0, -0.0])
        elif kind == "split":
            target = float(r.choice([-999, -995, -700, -300, -200, -150, 0, 100]))
        elif kind in ("hash", "mod", "int", "idmean"):
            target = float(r.choice([-900, 0, 1, 5, 10, 30, 100]))
        else:
            target = float(r.choice([-100, -20, -3, -1, 0, 0, 1, 2, 3]))
    mx = r.choice(prof.get("max", [10, 30, 80]))
    auto = {"seed": r.randint(0, 10**6), "mode": r.choice(["fifo", "lifo", "starve", "rand", "rand"]),
            "batch": r.choice([1, 1, 2, 3, conc]), "max": mx,
            "vals": {"kind": kind, "prej": r.choice(prof.get("prej", [0, 0, 0.2, 0.6, 0.95])),
                     "pfail": r.choice(prof.get("pfail", [0, 0, 0, 0.02, 0.1]))}}
    if r.random() < prof.get("pterm", 0.3):
        auto["term_at"] = r.randint(1, mx)
    steps = []
    for _ in range(r.choice([0, 0, 0, 1, 4])):
        st = {"rel": [[r.randint(0, conc + 4), "auto", 0.0] for _ in range(r.randint(1, 3))]}
        if r.random() < prof.get("pterm", 0.3) / 4:
            st["term"] = True
        steps.append(st)
    hon = [r.random() < r.choice([0.0, 0.5, 1.0]) for _ in range(7)]
    abrt = [r.choice(["rej", "rej", "acc", "accbig", "fail"]) for _ in range(7)]
    if spec is None:
        spec = runs.SIMPLE if r.random() < 0.5 else gen.Gen(r, hostile=0.1, extreme=0.1, max_nodes=6).spec()
    guess, gnull = None, False
    if r.random() < prof.get("pguess", 0.25):
        gnull = spec[0] == "optional"
        guess = gen.Gen(r, extreme=0.1).value(spec, as_list=0.2)
    return runs.script(sid, spec, conc=conc, n=n, target=target, sample=sample, hon=hon, abrt=abrt, steps=steps,
                       auto=auto, ints=sample > 1, guess=guess, guess_null=guess is None and gnull,
                       exp=r.choice(EXPS) if kind in INTY else 0)


PROFILES = {
    # population cap is 100: half of the runs go beyond it
    "C02": [(0.4, dict(pterm=0.15, pfail=[0, 0, 0, 0.01], prej=[0, 0.2, 0.5])),
            (0.3, dict(n=[130, 180, 260], ptarget=0.1, pterm=0.2, pfail=[0], prej=[0, 0, 0.1, 0.3], max=[150, 250])),
            (0.3, dict(samples=[2, 3, 4, 5, 6, 7, 8, 10], n=[60, 120, 250, 350], ptarget=0.15, pterm=0.15, pfail=[0], prej=[0, 0, 0.1],
                       max=[100, 300]))],
    "C03": [(0.01, dict(n=[1500, 2600], prej=[1.0, 1.0, 0.999], conc=[1, 1, 3], pfail=[0], pterm=0, ptarget=0, max=[4000])),
            (0.03, dict(conc=[100, 150, 300, 600], n=[90, 130, 140, 260, 290, 300, 310], pfail=[0], pterm=0, ptarget=0)),
            (0.8, dict(ptarget=0.1, pterm=0.1, pfail=[0, 0, 0, 0, 0.05], n=[0, 0, 1, 2, 3, 4, 5, 7, 11, 20, 40],
                       conc=[1, 2, 3, 4, 5, 8, 16])),
            (0.2, dict(samples=[2, 3], n=[25, 40, 80], ptarget=0, pterm=0, pfail=[0], prej=[0, 0.1]))],
    "C04": [(0.8, dict(ptarget=0.6, pterm=0.6, conc=[1, 2, 3, 4, 6], n=[None, None, 20, 50], prej=[0, 0, 0.3, 0.95])),
            (0.06, dict(samples=[2, 2, 3], ptarget=1, pterm=0.2, n=[None, 150], max=[120], pfail=[0], prej=[0],
                        kinds=["split", "split", "idmean"])),
            (0.04, dict(conc=[130, 200, 300], n=[None, 150, 400], pterm=0.5, ptarget=0.3, max=[150])),
            (0.2, dict(samples=[2, 3, 6], ptarget=0.5, pterm=0.6, n=[None, 100], max=[60, 120], pfail=[0], prej=[0, 0.1]))],
    "C05": [(0.7, dict(conc=[1, 2, 3, 4, 5, 6, 8, 12, 16], n=[None, 5, 10, 20, 40, 80], pterm=0.2, ptarget=0.1,
                       pfail=[0, 0, 0, 0.02])),
            (0.06, dict(conc=[64, 100, 129, 150, 257, 300, 520], n=[None, 200, 600], pterm=0.2, ptarget=0, pfail=[0],
                        max=[200, 600])),
            (0.3, dict(samples=[2, 3, 5], conc=[1, 2, 4, 8, 16], n=[60, 150], pterm=0, ptarget=0, pfail=[0],
                       prej=[0, 0.1]))],
    "C06": [(0.9, dict(pfail=[0.02, 0.05, 0.1, 0.3], ptarget=0.4, pterm=0.3, conc=[1, 2, 3, 4, 6], n=[None, 10, 40],
                       prej=[0, 0.3])),
            (0.1, dict(samples=[2], pfail=[0.01], ptarget=0.2, pterm=0.1, n=[150], prej=[0]))],
    "C08": [(0.3, dict(pterm=0.2, pfail=[0, 0.01])),
            (0.7, dict(samples=[2, 2, 3, 4, 5, 7, 9], n=[60, 120, 250], ptarget=0.05, pterm=0.1, pfail=[0], prej=[0, 0, 0.1, 0.3],
                       conc=[1, 2, 4, 8], max=[200]))],
    "C14": [(0.6, dict(pterm=0.3, ptarget=0.3)),
            (0.2, dict(n=[120, 200], pfail=[0], pterm=0.1)),
            (0.2, dict(samples=[2, 3], n=[60, 120], ptarget=0.1, pterm=0.1, pfail=[0, 0.01], prej=[0, 0.2]))],
    "C15": [(0.01, dict(n=[1500, 2600], prej=[1.0, 0.999], conc=[1, 3], pfail=[0], pterm=0, ptarget=0, max=[4000])),
            (0.6, dict(kinds=["huge", "hugeinc", "zeros", "gauss", "ties"], prej=[0, 0.5, 0.95, 1.0], pfail=[0, 0, 0.02])),
            (0.2, dict(samples=[2, 3], kinds=["const", "ties", "mod", "int"], n=[60, 120], prej=[0, 0.3, 0.8], pfail=[0])),
            (0.2, dict(n=[200, 300], kinds=["huge", "hugeinc", "zeros", "gauss"], prej=[0, 0.3], pfail=[0], pterm=0.1,
                       ptarget=0.05))],
}

# exhaustive schedule families (RunGen.tla) per property
FAMILIES = {
    "C02": [dict(conc=2, n=3, outs='"acc","rej"', vals="1,2", terms="TRUE"),
            dict(conc=1, n=4, outs='"acc","rej"', vals="1,2,3", terms="TRUE"),
            dict(conc=2, n=3, target=1, outs='"acc","rej"', vals="1,2")],
    "C03": [dict(conc=2, n=3, outs='"acc","rej","fail"', vals="2", terms="FALSE"),
            dict(conc=3, n=2, outs='"acc","rej","fail"', vals="2"),
            dict(conc=2, n=4, outs='"acc","rej"', vals="2", terms="FALSE"),
            dict(conc=2, n=0), dict(conc=1, n=1), dict(conc=4, n=3, outs='"acc","rej"', vals="2", terms="FALSE")],
    "C04": [dict(conc=2, n=99, created=3, target=1, hons="TRUE,FALSE", outs='"acc","rej"', vals="1,2"),
            dict(conc=2, n=4, target=1, outs='"acc","fail"', vals="1,2"),
            dict(conc=2, n=99, created=3, target=99, hons="TRUE", abrt='"acc","rej","fail"', outs='"acc","rej"', vals="2"),
            dict(conc=3, n=99, created=3, target=1, hons="TRUE,FALSE", outs='"acc"', vals="1,2")],
    "C05": [dict(conc=2, n=4, outs='"acc","rej"', vals="2", terms="FALSE"),
            dict(conc=3, n=4, outs='"acc"', vals="2", terms="TRUE"),
            dict(conc=3, n=99, created=5, outs='"acc"', vals="2", terms="FALSE")],
    "C06": [dict(conc=2, n=3, target=1, outs='"acc","rej","fail","nonf"', vals="1,2", terms="FALSE"),
            dict(conc=2, n=99, created=3, outs='"acc","fail"', vals="2", hons="TRUE,FALSE"),
            dict(conc=3, n=4, outs='"acc","fail"', vals="2", terms="FALSE", abrt='"acc","fail"')],
    "C08": [dict(conc=2, n=3, outs='"acc","rej"', vals="1,2")],
    "C14": [dict(conc=2, n=3, target=1, outs='"acc","rej","fail"', vals="1,2", terms="FALSE"),
            dict(conc=2, n=3, outs='"acc","rej","fail"', vals="2"),
            dict(conc=2, n=99, created=3, outs='"acc","rej","fail"', vals="2", hons="TRUE,FALSE")],
    "C15": [dict(conc=2, n=3, target=1, outs='"acc","rej","fail","nonf"', vals="1,2")],
}
FAMILIES_THOROUGH = [
    dict(conc=2, n=4, target=1, outs='"acc","rej","fail"', vals="1,2"),
    dict(conc=3, n=4, outs='"acc","fail"', vals="1,2", hons="TRUE"),
    dict(conc=2, n=99, created=4, target=1, outs='"acc","rej"', vals="1,2", hons="TRUE,FALSE"),
    dict(conc=1, n=6, target=1, outs='"acc","rej"', vals="1,2,3", abrt='"acc","rej"'),
]
NRANDOM = {"C02": 260, "C03": 700, "C04": 700, "C05": 350, "C06": 800, "C08": 200, "C14": 260, "C15": 300}


def run_scripts(ctx, exe, scripts, what, keep=None):
    ex = runs.execute(ctx, exe, scripts, tag=what)
    nev = sum(len(l) for _, l in ex)
    ctx.add("events_validated", nev)
    # a spec the parser wrongly refuses is C10's business; here it only costs coverage
    skip = [x for x in ex if '"badspec"' in x[1][1]]
    if skip:
        ex = [x for x in ex if '"badspec"' not in x[1][1]]
        ctx.add("specs_not_accepted", len(skip))
        if len(skip) > len(ex):
            raise core.ToolError("generated specs rejected by the tool: %s" % skip[0][1][1])
    bad = runs.validate(ctx, ex, tag="v" + what, n=max(1, min(core.CORES, nev // 5000)))
    ctx.log("%s: %d runs, %d events, %d rejected" % (what, len(ex), nev, len(bad)))
    if ex and len(ctx.samples) < 4:
        s, l = ex[len(ex) // 2]
        ctx.samples.append({"family": what, "conc": s["conc"], "n": s["n"], "target": s["target"], "sample": s["sample"],
                            "events": [short(x) for x in l[1:14]]})
    return ex, bad


def thread_script(r, sid):
    """an in-process run on worker threads (harness/src/threads.rs)"""
    free = r.random() < 0.35
    conc = r.choice([1, 2, 3, 4, 5, 6, 8, 9, 12, 17, 24])
    n = r.choice([0, 1, 2, conc - 1, conc, conc + 1, 2 * conc, 20, 40])
    if free:
        n = r.choice([0, 1, conc, 30, 100, 200, 300])
    target = None
    hi = 10**r.choice([0, 1, 2, 4])
    if not free and r.random() < 0.3:
        target = float(r.choice([0, 1, hi // 4, -5]))
    spec = runs.SIMPLE if r.random() < 0.5 else gen.Gen(r, hostile=r.choice([0.1, 0.8]), extreme=0.1, max_nodes=6).spec()
    guess = gen.Gen(r, extreme=0.1).value(spec, as_list=0.2) if r.random() < 0.2 else None
    d = runs.script(sid, spec, conc=conc, n=max(0, n), target=target, seed=r.randint(0, 10**6), free=free,
                    batch=r.choice([1, 2, conc]), prej=r.choice([0, 0, 0.3, 0.9]), lo=r.choice([0, -hi]), hi=hi)
    if guess is None:
        d.pop("jguess")
    return d


def threads(ctx, exe):
    """the library's blocking entry point: worker threads, one evaluation in each"""
    r = ctx.rng
    scripts = [thread_script(r, "t%d" % i) for i in range(400 if ctx.thorough else 60)]
    ex = runs.execute(ctx, exe, scripts, tag="thr", n=4, sub="threads")
    ex = [x for x in ex if '"badspec"' not in x[1][1]]
    bad = runs.validate(ctx, ex, tag="vthr", n=2, report=False)
    sure = []
    for rnd in range(2):
        sure += [x for x in bad if json.loads(x[1][x[2]])["t"] != "quiet"]
        bad = [x for x in bad if json.loads(x[1][x[2]])["t"] == "quiet"]
        if not bad:
            break
        # timing on a loaded machine is no violation: only what fails again, alone, counts
        ctx.log("thread runs rejected: %d, repeating them" % len(bad))
        again = runs.execute(ctx, exe, [dict(x[0], wait_ms=8000) for x in bad[:4]], tag="thr%d" % rnd, n=1, sub="threads")
        bad = runs.validate(ctx, again, tag="vthr%d" % rnd, n=1, report=False)
    bad += sure
    for s, lines, d in bad:
        runs.report_run(ctx, s, lines, d, ctx.prop)
    ctx.add("threaded_runs", len(ex))
    ctx.log("threads: %d runs, %d rejected" % (len(ex), len(bad)))


def short(line):
    e = json.loads(line)
    for k in ("val", "cfg", "meta"):
        e.pop(k, None)
    for k in ("v",):
        if k in e:
            e[k] = tenc.funlimbs(e[k])
    if e.get("res"):
        e["res"] = [tenc.funlimbs(e["res"][0])]
    return e


def sanity(ctx, ex):
    """the judge must reject damaged copies of accepted runs"""
    todo = []
    for s, l in ex:
        for p, new in runs.corruptions(l):
            if p == ctx.prop:
                todo.append((s, new))
        if len(todo) >= 6:
            break

    def one(a):
        i, t = a
        return runs.validate(ctx, [t], tag="sanity%d" % i, report=False, n=1)

    st, tr = ctx.coverage.get("states", 0), ctx.coverage.get("traces_validated_against_impl", 0)
    res = core.pmap(one, list(enumerate(todo[:6])), 6)
    ctx.coverage["states"], ctx.coverage["traces_validated_against_impl"] = st, tr
    if any(not b for b in res):
        raise core.ToolError("a damaged trace was accepted")
    ctx.add("damaged_traces_rejected", len(res))
    ctx.log("damaged traces rejected: %d" % len(res))


def check(ctx, exe=None):
    P = ctx.prop
    exe = exe or core.build_harness(ctx)
    design.check_design(ctx, design.LARGE if ctx.thorough else design.SMALL)
    design.check_bugs(ctx, only=None if ctx.thorough else P)

    fams = list(FAMILIES[P]) + (FAMILIES_THOROUGH if ctx.thorough else [])

    def gen_one(a):
        i, kw = a
        return design.schedules(ctx, "gen%d" % i, **kw)

    scripts = []
    for sch, kw in core.pmap(gen_one, list(enumerate(fams)), 4):
        for x in sch:
            scripts.append(design.to_script(x, kw, len(scripts), runs.SIMPLE, runs.script))
    ctx.add("schedules_from_spec", len(scripts))
    ex, bad = run_scripts(ctx, exe, scripts, "gen")
    r = ctx.rng
    n = NRANDOM[P] * (12 if ctx.thorough else 1)
    rs = []
    for w, prof in PROFILES[P]:
        for _ in range(int(n * w)):
            rs.append(random_script(r, "r%d" % len(rs), prof))
    ex2, bad2 = run_scripts(ctx, exe, rs, "rand")
    if not bad and not bad2:
        sanity(ctx, ex2)
    if P in ("C01", "C02", "C03", "C04", "C05", "C15"):
        threads(ctx, exe)
    if P in ("C02", "C03", "C05", "C06", "C08", "C14", "C15"):
        full(ctx, exe)
    if P in ("C02", "C03", "C05", "C08", "C14", "C15"):
        long_runs(ctx, exe)
    import checks_proc
    if P in checks_proc.PROFILES:
        # the same specification on whole processes: the tool, its options, its files, the processes it starts
        checks_proc.extra(ctx)
    if P == "C06":
        import checks_cli
        checks_cli.exit_sweep(ctx)
    if P == "C02":
        import known
        known.ulp_probe(ctx)
    if P == "C15":
        import checks_cli
        checks_cli.any_outputs(ctx)
        import checks_twin
        checks_twin.log_twins(ctx, exe)
    ctx.assumptions = [
        "runs are driven through async_launch::launch with harness-controlled evaluations; the real controller, "
        "algorithm core and message plumbing run unmodified",
        "the run counts as settled when its future was polled without asking to be woken"]


# ------------------------------------------------------------------ whole runs with report files; very long runs
def full_script(r, sid):
    """launch_with_async_obj_func with report files, free-running (harness/src/full.rs)"""
    sample = r.choice([1, 1, 1, 1, 2, 3])
    conc = r.choice([1, 2, 3, 4, 7, 8, 16, 60])
    n = r.choice([1, conc, 30, 60, 120, 300])
    slow = r.random() < 0.12
    if slow:
        n = r.choice([1200, 1600])
    kind = r.choice(INTY if sample > 1 else FLOATY)
    target = None
    if r.random() < 0.25:
        target = float(r.choice([-50, -3, 0, 1, 5]))
    pfail = r.choice([0, 0, 0, 0, 0.01, 0.05]) if not slow else 0
    small = slow or r.random() < 0.4
    spec = runs.SIMPLE if small else gen.Gen(r, hostile=0.1, extreme=0.1, max_nodes=6).spec()
    guess = gen.Gen(r, extreme=0.1).value(spec, as_list=0.2) if r.random() < 0.2 else None
    d = runs.script(sid, spec, conc=conc, n=n, target=target, sample=sample, guess=guess, seed=r.randint(0, 10**6), slow=slow,
                    multi=r.random() < 0.4, pace=r.choice(["now", "yield", "sleep", "spawn", "mixed", "mixed"]),
                    vals={"kind": kind, "prej": r.choice([0, 0, 0.2, 0.6, 0.95]), "pfail": pfail}, ints=sample > 1, exp=r.choice(EXPS) if kind in INTY else 0)
    if slow:
        d["pace"] = r.choice(["now", "yield"])
    if guess is None:
        d.pop("jguess")
    return d


def large_script(r, sid):
    """parameter sets of some ten thousand characters"""
    spec = r.choice([("array", ("real", 1.2345678901234567e-300, 1e-301, None, None), 1700),
                     ("sub", {"k" * 60 + str(j): ("optional", ("enum", ["a" * 50, "b" * 50], "b" * 50), True) for j in range(320)}),
                     ("anon", ("int", -2**62, 1.0, None, None), 1500, None, None)])
    d = runs.script(sid, spec, conc=2, n=3, sample=1, seed=r.randint(0, 10**6), slow=False, multi=False, pace="now",
                    vals={"kind": "gauss", "prej": 0, "pfail": 0}, ints=False)
    d.pop("jguess")
    return d


def full(ctx, exe):
    """whole runs of the library with its report files"""
    import os
    import shutil
    import procs
    r = ctx.rng
    scripts = [full_script(r, "f%d" % i) for i in range(500 if ctx.thorough else 70)]
    scripts += [large_script(r, "L%d" % i) for i in range(12 if ctx.thorough else 3)]
    for s in scripts:
        s["dir"] = ctx.path("full-" + s["sid"])
        os.makedirs(s["dir"])
    ex = runs.execute(ctx, exe, scripts, tag="full", sub="full")
    res = []
    for s, lines in ex:
        if '"badspec"' in lines[1]:
            continue
        extra = []
        try:
            for i, seed, x, val, meta in procs.read_rows(s["dir"] + "/detailed_report.csv"):
                extra.append({"t": "rec", "id": i, "seed": tenc.esc(seed), "res": [] if x is None else [tenc.flimbs(x)], "val": tenc.jenc(val),
                              "meta": [] if meta is None else [["f", tenc.flimbs(y)] for y in meta]})
        except (OSError, ValueError, IndexError) as e:
            # nothing was started: nothing has to be there
            if any('"start"' in x for x in lines):
                extra.append({"t": "noreport", "what": tenc.esc(repr(e))})
        b = s["dir"] + "/best_seen.json"
        if os.path.exists(b):
            try:
                extra.append({"t": "bestfile", "val": tenc.jenc(json.loads(open(b).read()))})
            except ValueError:
                extra.append({"t": "bestfile", "val": ["s", "unreadable"]})
        else:
            extra.append({"t": "nobestfile"})
        shutil.rmtree(s["dir"], ignore_errors=True)
        res.append((s, lines[:-1] + [json.dumps(x) + "\n" for x in extra] + lines[-1:]))
    bad = runs.validate(ctx, res, tag="vfull", module="ProcTrace")
    ctx.add("whole_runs_with_files", len(res))
    ctx.log("full: %d runs, %d events, %d rejected" % (len(res), sum(len(x[1]) for x in res), len(bad)))


LONG_CFG = """SPECIFICATION LSpec
CONSTANTS
  TraceFile = %s
  PROP = "%s"
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
"""


def long_runs(ctx, exe):
    """runs beyond every 16-bit counter, judged as a whole (Long.tla)"""
    import re
    r = ctx.rng
    tiny = ("sub", {"x": ("real", 0.0, 1.0, None, None)})
    sizes = [(66100, 1), (2 * 33100, 2)] + ([(140000, 1), (200000, 3), (66000, 5)] if ctx.thorough else [])

    def one(a):
        i, (n, sample) = a
        s = runs.script("l%d" % i, r.choice([tiny, ("bool", True), ("int", 0, 1.0, 0, 5)]) if sample == 1 else tiny, conc=r.choice([1, 3, 8]),
                        n=n, sample=sample, seed=r.randint(0, 10**6), prej=r.choice([0, 0.1]))
        sp, op = ctx.path("long%d.s" % i), ctx.path("long%d.e" % i)
        with open(sp, "w") as f:
            f.write(json.dumps(s) + "\n")
        core.harness(ctx, exe, ["long", sp, op], timeout=800)
        t = core.tlc("Long", LONG_CFG % (core.tla_str(op), ctx.prop), ctx.work, "long%d" % i, timeout=800, heap="4g")
        if not t.ok:
            raise core.ToolError("Long.tla: " + t.out[-2000:])
        return s, re.search(r'<<"REJECTED", (\d+)>>', t.out), op

    def damaged():
        """a short run, and damaged copies of it that must be rejected"""
        s = runs.script("ld", tiny, conc=3, n=300, sample=2, seed=5, prej=0.1)
        sp, op = ctx.path("longd.s"), ctx.path("longd.e")
        with open(sp, "w") as f:
            f.write(json.dumps(s) + "\n")
        core.harness(ctx, exe, ["long", sp, op], timeout=100)
        e = json.loads(open(op).read())

        def put(f):
            d = json.loads(json.dumps(e))
            f(d)
            return d

        ds = {"C08": [lambda d: d["seeds"].__setitem__(7, d["seeds"][290]), lambda d: d["inds"][3].__setitem__(0, 3),
                      lambda d: d["inds"][9].__setitem__(1, 2), lambda d: d.update(first=["z"])],
              "C03": [lambda d: d["seeds"].append("x"), lambda d: d["ret"].update(acc=d["ret"]["acc"] + 1)],
              "C05": [lambda d: d.update(max=4), lambda d: d.update(twice=1)],
              "C14": [lambda d: d["ret"].update(acc=d["ret"]["acc"] + 1), lambda d: d["ret"].update(rej=d["ret"]["rej"] - 1)],
              "C15": [lambda d: d.update(ret={"k": "panic"})],
              "C02": [lambda d: d["ret"].update(n=d["ret"]["n"] + 1), lambda d: d["ret"].update(who=[]), lambda d: d.update(ret={"k": "err", "msg": ""})]}
        cases = [e] + [put(f) for f in ds.get(ctx.prop, [])]
        with open(op, "w") as f:
            f.writelines(json.dumps(x) + "\n" for x in cases)
        t = core.tlc("Long", LONG_CFG % (core.tla_str(op), ctx.prop), ctx.work, "longd", timeout=300)
        got = {int(x) for x in re.findall(r'<<"REJECTED", (\d+)>>', t.out)}
        if not t.ok or not got >= set(range(2, len(cases) + 1)):
            raise core.ToolError("damaged summaries accepted: %s of %d\n%s" % (got, len(cases), t.out[-800:]))

    damaged()
    for s, bad, op in core.pmap(one, list(enumerate(sizes)), 4):
        if bad:
            e = json.loads(open(op).read())
            e["seeds"] = e["seeds"][:50]
            e["inds"] = e["inds"][:50]
            ctx.violation("a run of %d evaluations is not as Long.tla says" % s["n"], {"script": s, "summary": e})
        ctx.add("evaluations_in_long_runs", s["n"])
    ctx.log("long runs: %s" % (sizes,))
