"""C09: two executions with the same inputs are the same."""
import csv
import json
import os
import subprocess

import checks_guess
import checks_run
import core
import gen
import runs
import tenc
import twins


def one_cpu():
    return ["taskset", "-c", str(min(os.sched_getaffinity(0)))] if hasattr(os, "sched_getaffinity") else []


def fast_clock(ctx):
    so = core.build_fakeclock(ctx)
    return {"LD_PRELOAD": so, "FAKE_RATE": "20000", "FAKE_AHEAD": "123456789"} if so else {}


VARIATIONS = [lambda ctx: dict(env={"RUST_LOG": "error", "LANG": "de_DE", "TZ": "Asia/Tokyo", "COLUMNS": "13", "HOME": ctx.work}, cwd="/"),
              lambda ctx: dict(env=fast_clock(ctx)),
              lambda ctx: dict(prefix=one_cpu())]


def scripts_for(ctx, k):
    r = ctx.rng
    out = []
    for i in range(int(420 * k)):
        c = i % 5
        if c == 0:
            s = checks_guess.rich_script(r, "big%d" % i, i % 10 == 0)
        elif c == 1:
            s = checks_guess.rich_script(r, "rich%d" % i, False)
        else:
            prof = dict(conc=[1, 2, 3, 4, 8], n=[10, 30, 60, 130], max=[40, 140], samples=[1, 1, 2, 3], pguess=0.3, pfail=[0, 0, 0, 0.02])
            spec = None
            if r.random() < 0.6:
                # wide maps: iteration order has something to shuffle
                g = gen.Gen(r, hostile=0.2, extreme=0.2, max_nodes=r.choice([10, 20, 30]))
                g.left = g.max_nodes
                spec = ("sub", {n: g.node(2) for n in g.names(r.randint(3, 9))})
            s = checks_run.random_script(r, "run%d" % i, prof, spec)
        # a request that races with a completion may be noticed on either side of it
        s["steps"] = [{x: y for x, y in st.items() if x != "term"} for st in s["steps"]]
        out.append(s)
    for i in range(int(8 * k)):
        out.append(checks_guess.rich_script(r, "long%d" % i, "long"))
    return out


def pairs_of(a, b, what):
    ma = {}
    for s, l in a:
        ma.setdefault(s["sid"].split("#")[0], []).append(l)
    mb = {}
    inp = {}
    for s, l in b:
        mb.setdefault(s["sid"].split("#")[0], []).append(l)
        inp[s["sid"].split("#")[0]] = s
    out = []
    for sid in ma:
        for l in mb.get(sid, []):
            if '"badspec"' not in ma[sid][0][1] and '"badspec"' not in l[1]:
                out.append(("%s %s" % (what, sid), twins.observe(ma[sid][0]), twins.observe(l), inp[sid]))
    return out


def check_c09(ctx):
    exe = core.build_harness(ctx)
    k = 8 if ctx.thorough else 1
    r = ctx.rng
    ss = scripts_for(ctx, k)
    first = runs.execute(ctx, exe, ss, tag="a")
    # other processes, other order, other speed, another clock, one processor, other environment, every script twice in the same process
    again = []
    for s in ss:
        again += [s, dict(s, sid=s["sid"] + "#2", pace_us=r.choice([0, 0, 100, 400]))]
    r.shuffle(again)
    second = []
    for x in core.pmap(lambda w: w(), [
            lambda i=i, v=v: runs.execute(ctx, exe, again[i::len(VARIATIONS)], tag="b%d" % i, n=3, **v(ctx)) for i, v in enumerate(VARIATIONS)], 3):
        second += x
    for s, l in first + second:
        ctx.add("events_recorded", len(l))
    pairs = pairs_of(first, second, "two processes, one of them running it twice")
    bad = twins.judge(ctx, pairs, "twin")
    twins.report(ctx, bad, "two executions of the same run differ")
    ctx.add("traces_validated_against_impl", len(first) + len(second))
    p2 = cli_twins(ctx, 12 * k)
    bad2 = twins.judge(ctx, p2, "cli", n=2)
    twins.report(ctx, bad2, "two runs of the tool differ")
    ctx.samples += [{"pair": p[0], "events": [checks_run.short(x) for x in p[1][:3]]} for p in pairs[:3]]
    if not bad and not bad2:
        twins.sanity(ctx, pairs)
    ctx.assumptions = ["the environment of both executions is the same deterministic function of the observed history, so that the first "
                       "difference between two executions is the code's"]


def log_twins(ctx, exe):
    """C15: with and without logging"""
    r = ctx.rng
    ss = scripts_for(ctx, 4 if ctx.thorough else 0.4)
    quiet = runs.execute(ctx, exe, ss, tag="quiet")
    for lv in ("trace", "info"):
        part = ss if lv == "trace" or ctx.thorough else r.sample(ss, len(ss) // 3)
        loud = runs.execute(ctx, exe, part, tag=lv, env={"VERIF_LOG": lv})
        bad = twins.judge(ctx, pairs_of(quiet, loud, "no logging, %s logging" % lv), lv)
        twins.report(ctx, bad, "a run with %s logging differs from the same run without" % lv)
        ctx.add("traces_validated_against_impl", len(loud))
    bad = twins.judge(ctx, cli_twins(ctx, 60 if ctx.thorough else 10, True), "vcli", n=2)
    twins.report(ctx, bad, "the tool differs with and without -v")


def text(s):
    return json.dumps({"t": "text", "s": tenc.esc(s)})


NOISES = [b"", b"", b"note\n", b"x" * 3000, "gr\u00fc\u00dfe ".encode() * 300, "\u4e16\u754c".encode() * 700, b"\xff\xfe\x00\x80" * 400, b"\n" * 50,
          "\U0001f600".encode() * 5000, b"{} %s \\ \r\x1b[31m", b"\xc3" * 5, "a\u00e9".encode() * 40000]


def cli_twins(ctx, n, verbosity=False):
    """the tool, one evaluation at a time: standard output, summary and detailed report of two executions"""
    cli = core.build_cli(ctx)
    clock = fast_clock(ctx)
    r = ctx.rng
    noises = list(NOISES)
    for ch in ("\u00e9", "\u4e16", "\U0001f600"):
        # a character of several bytes across any byte position
        noises += [b"x" * k + ch.encode() * 2000 for k in range(len(ch.encode()))]
    for k, x in enumerate(noises):
        with open(ctx.path("noise%d" % k), "wb") as f:
            f.write(x)
    jobs = []
    for i in range(n):
        g = gen.Gen(r, hostile=0.15, extreme=0.0, max_nodes=r.choice([6, 12, 20]))
        s = ("sub", {m: g.node(2) for m in g.names(r.randint(2, 6))}) if r.random() < 0.5 else g.spec()
        jobs.append((i, s, r.choice([10, 25]), r.random() < 0.3))

    def one(a):
        i, s, nn, guess = a
        res = []
        for rep in range(2):
            d = ctx.path("cli%d-%d" % (i, rep))
            os.makedirs(d)
            with open(d + "/s.yaml", "w") as f:
                f.write(gen.spec_yaml(s))
            # the value depends on the text of the parameters and of the seed
            with open(d + "/obj.sh", "w") as f:
                if verbosity:
                    f.write("cat %s$((($2 + %d) %% %d)) >&2\n" % (ctx.path("noise"), 7 * i, len(noises)))
                f.write("x=$(printf '%s %s' \"$1\" \"$2\" | cksum | cut -d' ' -f1)\nif [ $((x % 7)) = 0 ]; then echo '{}'; else "
                        "echo \"{\\\"objFuncVal\\\": $((x % 1000))}\"; fi\n")
            args = ["-n", str(nn), "-s", d + "/s.yaml", "-o", d + "/out"]
            env = dict(os.environ, RUST_BACKTRACE="0", TZ="UTC" if rep else "Asia/Tokyo")
            pre = []
            if rep and i % 3 == 0:
                env.update(clock)
            if rep and i % 3 == 1:
                pre = one_cpu()
            if rep and verbosity:
                args.append("-v")
            p = subprocess.run(pre + [cli] + args + ["/bin/sh", d + "/obj.sh"], capture_output=True, timeout=120, cwd=d, env=env)
            ev = [text("rc %d" % p.returncode), text(p.stdout.decode("utf-8", "replace"))]
            try:
                with open(d + "/out/detailed_report.csv", newline="") as f:
                    rows = list(csv.reader(f, delimiter=";"))
                drop = [j for j, h in enumerate(rows[0]) if "time" in h.lower()]
                for row in rows:
                    ev.append(text("|".join(x for j, x in enumerate(row) if j not in drop)))
                for ln in open(d + "/out/summary_report.txt"):
                    if "ime" not in ln:
                        ev.append(text(ln))
                ev.append(text(open(d + "/out/best_seen.json").read()))
            except (OSError, ValueError, IndexError) as e:
                ev.append(text("no report %s" % type(e).__name__))
            res.append(ev)
        return ("tool %d" % i, res[0], res[1], {"spec": gen.spec_yaml(s), "n": nn})

    out = core.pmap(one, jobs, core.CORES)
    ctx.add("pairs_of_tool_runs", len(out))
    return out
