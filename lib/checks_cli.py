"""C16 (and part of C15): the command-line tool and its protocol with objective-function processes (spec/Cli.tla)."""
import copy
import json
import os
import re
import shutil
import stat as st_

import core
import gen
import known
import procs
import runs
import tenc

CFG = """SPECIFICATION WSpec
CONSTANTS
  TraceFile = %s
  PROP = "%s"
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
"""

NUMS = ["0", "1", "-1", "1.5", "-0.0", "0.1", "1e300", "-1e300", "1E5", "1e-5", "5e-324", "100000", "123456789012", "-7.25", "2.50", "1e0",
        "9007199254740993", "18446744073709551615", "-9223372036854775808", "1e+3", "0.000001"]
BADDOC = ['[1.0]', '[]', '1.0', '"1.0"', 'null', 'true', '{"objFuncVal": "1.0"}', '{"objFuncVal": true}', '{"objFuncVal": [1.0]}',
          '{"objFuncVal": {"x": 1}}', '{"objFuncVal": 1.0, "x": 2}', '{"objfuncval": 1.0}', '{"objFuncVal ": 1.0}', '{"x": 1}', '[{"objFuncVal": 1}]',
          '{"objFuncVal": null, "extra": null}', '{"value": 1.0}', '{"objFuncVal": false}', '{"obj_func_val": 1.0}', '[null]', '{"": 1}', '[[1.0]]']
RAW = ['', ' ', '\n', '{', '}', '{"objFuncVal": }', '{"objFuncVal": 1.0', '{objFuncVal: 1.0}', "{'objFuncVal': 1.0}", '{"objFuncVal": 1.0}}',
       '{"objFuncVal": 1.0} x', '{"objFuncVal": 1.0}\n{"objFuncVal": 2.0}', '{"objFuncVal": NaN}', '{"objFuncVal": Infinity}', '{"objFuncVal": -Infinity}',
       '{"objFuncVal": 1e400}', '{"objFuncVal": -1e999}', '{"objFuncVal": .5}', '{"objFuncVal": 1.}', '{"objFuncVal": +1}', '{"objFuncVal": 0x10}',
       '{"objFuncVal": 01}', '{"objFuncVal": 1.0,}', 'objFuncVal: 1.0', '\ufeff{"objFuncVal": 1.0}', '{"objFuncVal": 1.0}\0', 'hello', '1.0 2.0',
       '{"objFuncVal" 1.0}', '{"objFuncVal": 1.0};', '// c\n{"objFuncVal": 1.0}', 'Result: {"objFuncVal": 1.0}', '{"objFuncVal": nan}', '{"objFuncVal":1e}',
       '{} {}', '{}x', 'nul', '{"objFuncVal": 1_000}', '{"objFuncVal": "1.0}', '{"objFuncVal":\x0c1}', '{"objFuncVal": undefined}']
RAWB = [b"\xff\xfe", b'{"objFuncVal": 1.0}\xff', b'\x80{"objFuncVal": 1.0}', b"\x00" * 10, b'{"\xff": 1}']
WS = ["", "", "", "\n", " ", "\n\n  ", "\t", "\r\n"]
ARGS = [b"", b" ", b"a b", b'"', b"'", b"\\", b"$HOME", b"*", b"a;b", b"`ls`", b"\n", b"--flag", b"-x", b"--", b"%s", b"\xc3\xa9", b"\xff\xfe", b"plain", b"x=1",
        b"{}", b'{"objFuncVal": 1}', b"-n", b"&&", b"|", b">out", b"-1", b"0", b"#", b"~"]


def out_doc(r, kind):
    """an output of an objective-function process"""
    pre, post = r.choice(WS), r.choice(WS)
    if kind == "acc":
        x = r.choice(NUMS)
        text = r.choice(['{"objFuncVal": %s}', '{"objFuncVal":%s}', '{ "objFuncVal" :\n%s }', '{"\\u006fbjFuncVal":%s}']) % x
    elif kind == "rej":
        text = r.choice(['{}', '{"objFuncVal": null}', '{ }', '{"objFuncVal":null}'])
    else:
        text = r.choice(BADDOC)
    return {"exit": 0, "form": "doc", "doc": tenc.jenc(json.loads(text)), "bytes": (pre + text + post).encode()}


def output(r, kind):
    if kind in ("acc", "rej", "baddoc"):
        o = out_doc(r, kind)
    elif kind == "raw":
        b = r.choice(RAWB) if r.random() < 0.15 else r.choice(RAW).encode()
        o = {"exit": 0, "form": "raw", "doc": ["z"], "bytes": b}
    elif kind == "any":
        n = r.choice([0, 1, 3, 20, 300])
        base = r.choice([b"", b'{"objFuncVal": 1.5}', b'{"objFuncVal": '])
        b = base + bytes(r.choice([r.randint(0, 255), 0x22, 0x7b, 0x7d, 0x5b]) for _ in range(n))
        if r.random() < 0.4 and base:
            b = bytearray(base * 2)
            for _ in range(r.randint(1, 3)):
                b[r.randrange(len(b))] = r.randint(0, 255)
            b = bytes(b)
        if r.random() < 0.05:
            b = b"[" * r.choice([200, 5000])
        o = {"exit": 0, "form": "any", "doc": ["z"], "bytes": b}
    else:
        o = dict(out_doc(r, r.choice(["acc", "rej", "baddoc"])))
        o["exit"] = r.choice([1, 2, 3, 42, 101, 255, "sig9", "sig15", "sig11", "sig6"])
        if r.random() < 0.3:
            o["bytes"] = r.choice(RAWB + [b"", b"partial {"])
    if r.random() < 0.3:
        o["err"] = r.choice([b"warning\n", b"\xff\x00\xfe", b"panicked at 'x'\n"[:7], b"e" * 3000, "ümläut\n".encode()])
    if r.random() < 0.04:
        o["big"] = r.choice([1, 2]), r.randint(1, 40)
        if o["big"][0] == 1:
            # a lot of white space in front is still a JSON text
            pass
    return o


def case(r, sid, fam):
    g = gen.Gen(r, hostile=r.choice([0.0, 0.3, 0.7]), extreme=0.0, max_nodes=r.choice([2, 5, 9]), floats_exact=True)
    spec = g.spec()
    c = {"sid": sid, "specm": spec, "spec": tenc.spec_enc(spec), "yaml": gen.spec_yaml(spec), "specfile": "ok", "hasprog": True, "prog": "ok",
         "opts": [], "dir": "none", "force": False, "guess": [], "n": [], "target": [], "outs": [], "args": [], "verbose": r.random() < 0.2,
         "style": r.randint(0, 10**6)}
    n = r.choice([1, 1, 2, 3, 5, 9])
    kinds = r.choice([["acc"], ["acc", "rej"], ["acc", "acc", "rej"], ["rej"]])
    if fam == "dir":
        c["dir"] = r.choice(["absent", "nested", "empty", "full", "file", "link"])
        c["force"] = c["dir"] not in ("file", "link") and r.random() < 0.5
        if r.random() < 0.25:
            kinds = ["acc", r.choice(["fail", "baddoc", "raw"])]
    elif r.random() < 0.4:
        c["dir"] = r.choice(["absent", "absent", "nested"])
    if fam == "args" or r.random() < 0.3:
        c["args"] = [r.choice(ARGS) for _ in range(r.randint(0, 5))]
    if fam == "fail":
        kinds = r.choice([["acc", "acc", "F"], ["F"], ["rej", "F"], ["acc", "F", "acc"]])
        kinds = [r.choice(["fail", "baddoc", "raw"]) if k == "F" else k for k in kinds]
    if fam == "any":
        kinds = ["any", "acc", "any"]
        r.shuffle(kinds)
        n = r.choice([3, 6])
    c["outs"] = [output(r, k) for k in kinds] if fam == "fail" else [output(r, r.choice(kinds)) for _ in range(min(n, 6))]
    if fam == "any" or fam == "fail":
        pass
    c["n"] = [n]
    if r.random() < 0.15 and fam == "plain":
        c["n"] = [0]
    if r.random() < 0.3:
        t = r.choice(["1.5", "-3", "0", "1e3", ".5"])
        c["target"] = [tenc.flimbs(float(t))]
        c["opts"].append({"n": "t", "a": t})
        if r.random() < 0.3 and any(k in ("acc",) for k in kinds) and fam == "plain":
            # no budget: the last of the outputs hits the target
            c["n"] = []
            o = out_doc(r, "acc")
            o["bytes"] = b'{"objFuncVal": -1e9}'
            o["doc"] = tenc.jenc({"objFuncVal": -1e9})
            c["outs"].append(o)
    if c["n"]:
        c["opts"].append({"n": "n", "a": str(c["n"][0])})
    if r.random() < 0.2:
        c["opts"].append({"n": "conc", "a": "1"})
    if r.random() < 0.2:
        c["opts"].append({"n": "sample", "a": "1"})
    if r.random() < 0.2:
        c["opts"].append({"n": "nosig", "a": ""})
    if r.random() < 0.2:
        c["opts"].append({"n": "k", "a": r.choice(["1m", "2 minutes", "3600", "1h30m"])})
    if r.random() < 0.2:
        c["opts"].append({"n": "after", "a": r.choice(["1m", "2 minutes", "1h30m"])})
    if r.random() < 0.25:
        c["guess"] = ["ok", tenc.jenc(g.value(spec))] if spec[0] != "optional" or r.random() < 0.8 else ["ok", ["z"]]
        c["guesstext"] = json.dumps(dec(c["guess"][1]), ensure_ascii=r.random() < 0.5)
    if fam == "bad":
        w = r.choice(["opt", "opt", "opt", "opt", "spec", "guess", "prog", "noprog", "bogus", "nospec"])
        if w == "opt":
            o = r.choice(["n", "conc", "sample", "after", "k", "t"])
            bad = {"n": ["abc", "-1", "1.5", ""], "conc": ["0", "-1", "x", "1.0", "00"], "sample": ["0", "-2", "two"], "after": BADDUR, "k": BADDUR,
                   "t": ["abc", "", "1,5", "0x10", "1.5.2"]}[o]
            c["opts"] = [x for x in c["opts"] if x["n"] != o] + [{"n": o, "a": r.choice(bad)}]
            if o == "n":
                c["n"] = [1]
        elif w == "spec":
            c["specfile"] = r.choice(["missing", "yaml", "type", "empty", "dir", "utf8", "bounds"])
        elif w == "nospec":
            c["specfile"] = "none"
        elif w == "guess":
            c["guess"], c["guesstext"] = badguess(r, spec)
        elif w == "prog":
            c["prog"] = r.choice(["missing", "noexec", "isdir", "format"])
        elif w == "noprog":
            c["hasprog"] = False
        else:
            c["opts"].append({"n": "bogus", "a": r.choice(["--bogus", "--num-concurent=2", "-Z", "--max_obj_func_eval=3"])})
        if r.random() < 0.4:
            c["dir"] = r.choice(["absent", "full", "empty"])
    return c


BADDUR = ["", "abc", "10 parsecs", "-5s", "ten seconds"]


def dec(j):
    """model JSON -> document"""
    k = j[0]
    if k == "z":
        return None
    if k in ("b",):
        return j[1]
    if k == "i":
        return tenc.unlimbs(j[1]) - 2**63
    if k == "u":
        return int(tenc.funlimbs(j[1]))
    if k == "f":
        return tenc.funlimbs(j[1])
    if k == "s":
        return tenc.unesc(j[1])
    if k == "a":
        return [dec(x) for x in j[1]]
    return {tenc.unesc(a): dec(b) for a, b in j[1].items()}


def badguess(r, spec):
    if r.random() < 0.4:
        return ["bad"], r.choice(["", "{", "{'a': 1}", "nan", "x", "{\"a\": }", "[1,]", "1 2"])
    j = r.choice([None, True, "zzz-no-such", [], {"zzz-unknown": 1}, 0.123456, [1, 2, 3, 4, 5, 6, 7], -(2**62)])
    return ["ok", tenc.jenc(j)], json.dumps(j)


SPECFILES = {"yaml": b"a: [1, 2\n b: }", "type": b"type: nosuchtype\n", "empty": b"", "utf8": b"type: \xff\xfe\n", "bounds": b"type: real\ninit: 5\nscale: 1\nmax: 1\n"}


def run_case(ctx, cli, child, c):
    S = procs.Session(ctx, cli, child, c["sid"])
    try:
        c["obs"] = _run(S, c)
    finally:
        S.close()
        shutil.rmtree(S.dir, ignore_errors=True)
    return c


def tree(path):
    """what is at a path"""
    if os.path.islink(path):
        return ("link", os.readlink(path))
    if os.path.isfile(path):
        s = os.stat(path)
        with open(path, "rb") as f:
            return ("file", f.read(), st_.S_IMODE(s.st_mode))
    if os.path.isdir(path):
        return ("dir", st_.S_IMODE(os.stat(path).st_mode), tuple((n, tree(os.path.join(path, n))) for n in sorted(os.listdir(path))))
    return None


def own(S, path):
    for d, ds, fs in os.walk(path):
        for n in [d] + [os.path.join(d, x) for x in fs + ds]:
            os.chown(n, S.uid, S.uid, follow_symlinks=False)


def prepare(S, c):
    od = {"nested": "a/b c/out"}.get(c["dir"], "out")
    p = os.path.join(S.dir, od)
    if c["dir"] in ("empty", "full"):
        os.makedirs(p)
        if c["dir"] == "full":
            os.makedirs(p + "/sub")
            for n, t in (("keep.txt", "precious"), ("sub/x", "y"), ("best_seen.json", "{}"), ("detailed_report.csv", "old\n")):
                with open(os.path.join(p, n), "w") as f:
                    f.write(t)
        own(S, p)
    elif c["dir"] == "file":
        with open(p, "w") as f:
            f.write("a file")
        os.chown(p, S.uid, S.uid)
    elif c["dir"] == "link":
        os.makedirs(os.path.join(S.dir, "real"))
        with open(os.path.join(S.dir, "real", "keep"), "w") as f:
            f.write("precious")
        own(S, os.path.join(S.dir, "real"))
        os.symlink("real", p)
    return od, p


FLAGS = {"n": ("-n", "--max-obj-func-eval"), "t": ("-t", "--target-obj-func-val"), "after": (None, "--terminate-after"), "conc": (None, "--num-concurrent"),
         "sample": (None, "--sample-size"), "k": ("-k", "--kill-obj-func-after")}


def _run(S, c):
    import random
    r = random.Random(c["style"])
    od, op = prepare(S, c)
    before = tree(op)
    linked = tree(os.path.join(S.dir, "real"))
    if c["specfile"] == "ok":
        S.write("sp ec.yaml", c["yaml"])
    elif c["specfile"] == "dir":
        os.mkdir(os.path.join(S.dir, "sp ec.yaml"))
    elif c["specfile"] in SPECFILES:
        S.write("sp ec.yaml", SPECFILES[c["specfile"]])
    opts = []
    for o in c["opts"]:
        if o["n"] == "nosig":
            opts.append(["--no-signal-result"])
        elif o["n"] == "bogus":
            opts.append([o["a"]])
        else:
            sh, lo = FLAGS[o["n"]]
            f = lo if sh is None or r.random() < 0.5 else sh
            if o["a"] == "" or o["a"].startswith("-") or r.random() < 0.5:
                opts.append([f + "=" + o["a"]])
            else:
                opts.append([f, o["a"]])
    if c["specfile"] != "none":
        opts.append(r.choice([["-s", "sp ec.yaml"], ["--spec-file=sp ec.yaml"], ["-ssp ec.yaml"]]))
    if c["dir"] != "none":
        opts.append(r.choice([["-o", od], ["--out-dir", od]]))
    if c["force"]:
        opts.append([r.choice(["-f", "--force"])])
    if c["verbose"]:
        opts.append([r.choice(["-v", "--verbose"])])
    if c["guess"]:
        opts.append(["--initial-guess=" + c["guesstext"]])
    r.shuffle(opts)
    prog = S.child
    if c["prog"] == "missing":
        prog = os.path.join(S.dir, "no such program")
    elif c["prog"] == "noexec":
        prog = S.write("noexec", "#!/bin/sh\necho '{\"objFuncVal\": 1}'\n")
        os.chmod(prog, 0o644)
    elif c["prog"] == "isdir":
        prog = S.dir
    elif c["prog"] == "format":
        prog = S.write("format", b"\x00\x01\x02 not a program")
        os.chmod(prog, 0o755)
    elif r.random() < 0.3:
        # through a path that needs care
        prog = os.path.join(S.dir, "my prog$x")
        shutil.copy(S.child, prog)
        os.chmod(prog, 0o755)
        os.chown(prog, S.uid, S.uid)
        if r.random() < 0.5:
            prog = "./my prog$x"
    pos = ([prog] if c["hasprog"] else []) + (list(c["args"]) if c["hasprog"] else [])
    dash = any(a.startswith(b"-") for a in c["args"])
    cut = r.randint(0, len(opts)) if not dash else len(opts)
    flat = lambda os_: [y for x in os_ for y in x]  # noqa: E731
    if dash or r.random() < 0.4:
        args = flat(opts) + ["--"] + pos
    else:
        # options may stand behind the program, too
        args = flat(opts[:cut]) + pos + flat(opts[cut:])
    S.start(args)
    kids = []
    end = procs.now() + 25
    hang = False
    while not S.ended():
        S.pump(0.01)
        for k in S.fresh:
            o = c["outs"][len(kids) % len(c["outs"])]
            kids.append(k)
            k.o = o
            big = o.get("big")
            bg = None
            if big:
                bg = (big[0], 0x20, big[1])
            e = o["exit"]
            if isinstance(e, str):
                S.exit(k, 0, o["bytes"], o.get("err", b""), sig=int(e[3:]), big=bg)
            else:
                S.exit(k, e, o["bytes"], o.get("err", b""), big=bg)
        S.fresh = []
        if procs.now() > end or len(kids) > 80:
            hang = True
            break
    if hang:
        for pid in procs.owned(S.uid):
            try:
                os.kill(pid, 9)
            except OSError:
                pass
    S.p.wait()
    out, err = S.outputs()
    rc = S.p.returncode
    obs = {"rc": rc, "hang": hang, "panic": b"panicked at" in err and not any(b"panicked" in o.get("err", b"") for o in c["outs"]) or rc == 101 or rc < 0,
           "err": len(err.strip()) > 0, "lines": out.count(b"\n") if out.endswith(b"\n") else -1}
    try:
        obs["val"] = tenc.jenc(json.loads(out.decode()))
    except ValueError:
        obs["val"] = ["s", "no JSON"]
    ks = []
    for k in kids:
        a = k.argv[1:]
        x = {"args": [y.hex() for y in a[:-2]], "val": ["s", "no JSON"], "seed": "?"}
        try:
            x["val"] = tenc.jenc(json.loads(a[-2].decode()))
            x["seed"] = tenc.esc(a[-1].decode())
        except (ValueError, IndexError):
            pass
        ks.append(x)
    obs["kids"] = ks
    after = tree(op)
    obs["kept"] = after == before and tree(os.path.join(S.dir, "real")) == linked
    size = lambda n: os.path.isfile(os.path.join(op, n)) and os.path.getsize(os.path.join(op, n)) > 0  # noqa: E731
    obs["files"] = all(size(n) for n in ("summary_report.txt", "detailed_report.csv", "best_seen.json"))
    obs["sum"] = []
    if obs["files"]:
        try:
            v, a, b = procs.read_summary(os.path.join(op, "summary_report.txt"))
            obs["sum"] = [tenc.flimbs(float(v)), int(a), int(b)]
        except (ValueError, TypeError):
            pass
    obs["argfile"] = obs["outfile"] = obs["errfile"] = False
    if c["dir"] != "none" and kids and os.path.isdir(op):
        k = kids[-1]
        blobs = {n: open(os.path.join(op, n), "rb").read() for n in os.listdir(op) if os.path.isfile(os.path.join(op, n))}
        rest = {n: b for n, b in blobs.items() if n not in ("summary_report.txt", "detailed_report.csv", "best_seen.json")}
        big = k.o.get("big")
        o_out = (b" " * 65536 * big[1] if big and big[0] == 1 else b"") + k.o["bytes"]
        o_err = k.o.get("err", b"") + (b" " * 65536 * big[1] if big and big[0] == 2 else b"")
        js, seed = (k.argv[-2], k.argv[-1]) if len(k.argv) > 2 else (b"?", b"?")
        obs["argfile"] = any(holds(b, js) and seed in b for b in rest.values())
        obs["outfile"] = any(b == o_out for b in rest.values())
        obs["errfile"] = any(b == o_err for b in rest.values())
        if o_out == o_err:
            obs["outfile"] = obs["errfile"] = sum(b == o_out for b in rest.values()) >= 2
    obs["errtext"] = tenc.esc(err[-200:].decode("utf-8", "replace"))
    return obs


def holds(blob, js):
    """the file holds the JSON text, plainly or as a Rust string literal"""
    if js in blob:
        return True
    try:
        t = blob.decode()
    except ValueError:
        return False
    a, b = t.find('"'), t.rfind('"')
    if a < 0 or b <= a:
        return False

    def one(m):
        x = m.group(1)
        if len(x) > 2 and x[0] == "u":
            return chr(int(x[2:-1], 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x, x)

    return re.sub(r"\\(u\{[0-9a-f]{1,6}\}|.)", one, t[a + 1:b], flags=re.S) == js.decode("utf-8", "replace")


# ------------------------------------------------------------------ judging
def line(c):
    x = {k: c[k] for k in ("spec", "opts", "specfile", "hasprog", "prog", "dir", "force", "guess", "n", "target")}
    x["args"] = [a.hex() for a in c["args"]]
    x["outs"] = [{"exit": 1 if isinstance(o["exit"], str) else o["exit"], "form": o["form"], "doc": o["doc"]} for o in c["outs"]] or [{"exit": 1, "form": "raw", "doc": ["z"]}]
    x["obs"] = c["obs"]
    return json.dumps(x)


def judge(ctx, cases, tag, n=4, prop=None):
    parts = core.chunk(list(range(len(cases))), [1 + len(c["obs"]["kids"]) for c in cases], n)

    def one(a):
        i, idx = a
        tf = ctx.path("cli-%s-%d.ndjson" % (tag, i))
        with open(tf, "w") as f:
            for k in idx:
                f.write(line(cases[k]) + "\n")
        r = core.tlc("Cli", CFG % (core.tla_str(tf), prop or ctx.prop), ctx.work, "cli-%s-%d" % (tag, i), timeout=900)
        if not r.ok:
            raise core.ToolError("Cli: " + r.out[-2500:])
        ctx.add("states", r.stat()[1])
        return [idx[int(m) - 1] for m in re.findall(r'<<"BADCASE", (\d+)>>', r.out)]

    return sorted(sum(core.pmap(one, list(enumerate(parts)), n), []))


def payload(c):
    p = {k: v for k, v in c.items() if k not in ("spec", "specm", "outs", "args", "obs")}
    p["args"] = [repr(a) for a in c["args"]]
    p["outs"] = [{"exit": o["exit"], "stdout": repr(o["bytes"][:300]), "stderr": repr(o.get("err", b"")[:100]), "big": o.get("big")} for o in c["outs"]]
    p["obs"] = c["obs"]
    return p


def brief(c):
    o = c["obs"]
    return "opts=%s dir=%s force=%s spec=%s prog=%s guess=%s outs=%s -> rc=%s lines=%s kids=%d kept=%s files=%s arg/out/err=%s/%s/%s sum=%s %s" % (
        [x["n"] + "=" + x["a"] for x in c["opts"]], c["dir"], c["force"], c["specfile"], c["prog"], c.get("guesstext"),
        [(x["exit"], x["bytes"][:40]) for x in c["outs"]][:4], o["rc"], o["lines"], len(o["kids"]), o["kept"], o["files"], o["argfile"], o["outfile"],
        o["errfile"], o["sum"], ("HANG " if o["hang"] else "") + ("PANIC " if o["panic"] else "") + o["errtext"][:150])


def go(ctx, cli, child, cases, tag, n=12):
    done = core.pmap(lambda c: run_case(ctx, cli, child, c), cases, n)
    ctx.add("tool_runs", len(done))
    bad = judge(ctx, done, tag)
    ctx.log("%s: %d runs of the tool, %d rejected" % (tag, len(done), len(bad)))
    for k in bad[:5]:
        # again, alone: the machine may have stalled
        c = copy.deepcopy({x: y for x, y in done[k].items() if x != "obs"})
        c["sid"] += "-again"
        run_case(ctx, cli, child, c)
        if judge(ctx, [c], "again", 1):
            ctx.violation("the tool: " + brief(done[k]), payload(done[k]))
        else:
            ctx.add("rejections_not_reproduced", 1)
            ctx.log("not reproduced: " + brief(done[k])[:500])
    if done and len(ctx.samples) < 5:
        ctx.samples.append({"family": tag, "case": brief(done[len(done) // 2])[:400]})
    return done, bad


FAMS = ["plain", "plain", "dir", "args", "fail", "fail", "bad", "bad"]


def check_c16(ctx):
    cli, child = core.build_cli(ctx), procs.build_child(ctx)
    r = ctx.rng
    k = 12 if ctx.thorough else 1
    cases = systematic(r)
    ctx.add("systematic_cases", len(cases))
    cases += [case(r, "c%d" % i, FAMS[i % len(FAMS)]) for i in range(900 * k)]
    done, bad = go(ctx, cli, child, cases, "cli")
    # concurrency, the other ways to end: conformance of the runs themselves
    import checks_proc
    ss = [checks_proc.random_script(r, "p%d" % i, dict(pint=0.3, pafter=0.05)) for i in range(60 * k)]
    _, b2 = checks_proc.judge(ctx, cli, child, ss, "proc")
    known.ulp_probe(ctx)
    if not bad and not b2:
        sanity(ctx, done)
    ctx.assumptions = ["numbers printed by objective-function processes are such that serde_json reads them exactly (see KNOWN_FINDINGS)",
                       "with one evaluation at a time the tool is a function of its input; runs with several are judged by Proc.tla"]


def any_outputs(ctx):
    """C15: whatever an objective-function process prints and however it ends, the tool ends, too, without a panic"""
    cli, child = core.build_cli(ctx), procs.build_child(ctx)
    r = ctx.rng
    cases = [case(r, "a%d" % i, ["any", "any", "any", "fail", "bad"][i % 5]) for i in range(250 * (12 if ctx.thorough else 1))]
    go(ctx, cli, child, cases, "any")


def exit_sweep(ctx):
    """C06: every exit status and every signal that ends a process, after fine output"""
    cli, child = core.build_cli(ctx), procs.build_child(ctx)
    r = ctx.rng
    cases = []
    for e in list(range(1, 256)) + ["sig%d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31, 34, 64)]:
        c = case(r, "x%s" % e, "plain")
        c.update(n=[3], target=[], opts=[{"n": "n", "a": "3"}], guess=[], dir="none", force=False, args=[], verbose=False,
                 outs=[dict(out_doc(r, r.choice(["acc", "rej"])), exit=0), dict(out_doc(r, r.choice(["acc", "acc", "rej"])), exit=e)])
        c.pop("guesstext", None)
        cases.append(c)
    go(ctx, cli, child, cases, "exits")


def systematic(r):
    """every output form, every number, every bad option once"""
    out = []

    def base(sid):
        c = case(r, sid, "plain")
        c.update(n=[2], target=[], opts=[{"n": "n", "a": "2"}], guess=[], outs=[out_doc(r, "acc")], dir="absent", force=False)
        c.pop("guesstext", None)
        return c

    for i, x in enumerate(NUMS):
        for j, form in enumerate(['{"objFuncVal": %s}', '{"objFuncVal":%s}\n']):
            c = base("n%d-%d" % (i, j))
            t = form % x
            c["outs"] = [{"exit": 0, "form": "doc", "doc": tenc.jenc(json.loads(t)), "bytes": t.encode()}]
            out.append(c)
    for i, t in enumerate(BADDOC):
        c = base("d%d" % i)
        c["outs"] = [out_doc(r, "acc"), {"exit": 0, "form": "doc", "doc": tenc.jenc(json.loads(t)), "bytes": t.encode()}]
        out.append(c)
    for i, t in enumerate([x.encode() for x in RAW] + RAWB):
        c = base("x%d" % i)
        c["outs"] = [out_doc(r, r.choice(["acc", "rej"])), {"exit": 0, "form": "raw", "doc": ["z"], "bytes": t}]
        out.append(c)
    for i, e in enumerate([1, 2, 42, 127, 255, "sig9", "sig15", "sig6", "sig1"]):
        c = base("e%d" % i)
        c["outs"] = [dict(out_doc(r, "acc"), exit=e)]
        c["dir"] = r.choice(["none", "absent"])
        out.append(c)
    for i, (o, a) in enumerate([("conc", "0"), ("sample", "0"), ("n", "-1"), ("n", "abc"), ("n", ""), ("conc", "-1"), ("sample", "x"), ("t", "abc"), ("t", ""),
                                ("conc", "1.5"), ("sample", "-3"), ("n", "1e3")] + [("after", d) for d in BADDUR] + [("k", d) for d in BADDUR]):
        for d in ("none", "absent", "full"):
            c = base("o%d%s" % (i, d))
            c["dir"] = d
            c["opts"] = [x for x in c["opts"] if x["n"] != o] + [{"n": o, "a": a}]
            out.append(c)
    for i, (d, f) in enumerate((d, f) for d in ("absent", "nested", "empty", "full") for f in (False, True)):
        for v in (False, True):
            for fail in (False, True):
                c = base("f%d%d%d" % (i, v, fail))
                c.update(dir=d, force=f, verbose=v)
                if fail:
                    c["outs"] = [out_doc(r, "acc"), output(r, "fail")]
                out.append(c)
    for i, d in enumerate(("file", "link")):
        c = base("l%d" % i)
        c["dir"] = d
        out.append(c)
    for i, p in enumerate(["missing", "noexec", "isdir", "format"]):
        for d in ("none", "absent"):
            c = base("p%d%s" % (i, d))
            c.update(prog=p, dir=d)
            out.append(c)
    for i, s in enumerate(["missing", "yaml", "type", "empty", "dir", "utf8", "bounds", "none"]):
        c = base("s%d" % i)
        c.update(specfile=s, dir=r.choice(["none", "absent", "full"]))
        out.append(c)
    return out


def sanity(ctx, done):
    """damaged observations must be rejected"""
    ok = [c for c in done if c["obs"]["rc"] == 0 and c["obs"]["kids"] and all(o["form"] != "any" for o in c["outs"]) and not c["guess"]]
    ref = [c for c in done if c["obs"]["rc"] != 0 and not c["obs"]["kids"] and c["dir"] == "full"]
    fail = [c for c in done if c["obs"]["rc"] != 0 and c["obs"]["kids"] and c["dir"] == "absent" and c["obs"]["argfile"]]
    todo = []

    def put(c, **kw):
        x = copy.deepcopy(c)
        x["obs"].update(kw)
        todo.append(x)

    a, b, f = ok[0], ref[0], fail[0]
    put(a, rc=1)
    put(a, lines=2)
    put(a, val=["s", "no such value"])
    put(a, kids=a["obs"]["kids"] + a["obs"]["kids"])
    put(a, kids=[dict(x, args=x["args"] + ["00"]) for x in a["obs"]["kids"]])
    put([c for c in ok if c["dir"] != "none"][0], files=False)
    put(b, kept=False)
    put(b, rc=0)
    put(f, rc=0)
    put(f, err=False)
    put(f, argfile=False)
    put(f, outfile=False)
    put(a, panic=True)
    put(a, hang=True)
    bad = judge(ctx, todo, "san", 1)
    if len(bad) != len(todo):
        raise core.ToolError("damaged observations accepted: %s" % sorted(set(range(len(todo))) - set(bad)))
    ctx.add("damaged_traces_rejected", len(todo))


_ = runs
