"""Checks of the pure parts: C10 (spec parser), C11 (codec), C12 (recombination), C13 (mutation); the operator parts of
C01 and C17."""
import concurrent.futures
import json
import os
import re

import core
import docs
import gen
import ops
import tenc

CORES = core.CORES


def tlc_enum(ctx, module, tag, consts, name, heap="4g"):
    r = core.tlc(module, "INIT GInit\nNEXT GNext\n%s\nINVARIANT Show\nCHECK_DEADLOCK FALSE\n" % consts, ctx.work, name,
                 heap=heap, timeout=1500)
    if not r.ok:
        raise core.ToolError("%s: %s" % (module, r.out[-2000:]))
    ctx.add("states", r.stat()[1])
    return [json.loads(x.replace('\\"', '"').replace("\\\\", "\\"))
            for x in sorted(set(re.findall(r'<<"%s", "(.*)">>' % tag, r.out)))]


# ---------------------------------------------------------------------------------------------- C10
FAMILIES = "int real anon array enum variant optional bool scope".split()


def expand(e):
    """document enumerated by DocGen.tla -> YAML data"""
    k = e[0]
    if k == "m":
        return gen.Pairs((expand(a), expand(b)) for a, b in e[1])
    if k == "a":
        return [expand(x) for x in e[1]]
    if k == "z":
        return None
    if k == "f":
        return float(e[1])
    return e[1]


def doc_case(i, d):
    return {"i": i, "yaml": gen.yaml_text(d), "d": docs.denc(d)}


def block_style(text_of, d, ind=0):
    """the same document in block style"""
    pad = "  " * ind
    out = []
    for k, v in d:
        ks = text_of(k)
        if isinstance(v, gen.Pairs) and v:
            out.append(pad + ks + ":\n" + block_style(text_of, v, ind + 1))
        else:
            out.append(pad + ks + ": " + text_of(v) + "\n")
    return "".join(out)


TOKENS = ["{", "}", "[", "]", ":", ",", "\n", "  ", "- ", "type", "real", "int", "sub", "anon map", "typeDef T", "valueType", "init", "min",
          "max", "scale", "size", "initSize", "0", "1", "2", "-1", "1.5", ".nan", ".inf", "~", "null", "true", "'", '"', "&a ", "*a", "!x ",
          "!!float ", "!!str ", "? ", "#", "|", ">", "%", "@", "`", "<<: ", "---", "...", "\t", "\x00", "\ufeff", "ü", "1e400", "0x10", "0o7",
          "99999999999999999999", "\\", "const", "{type: const}", "{type: bool, init: true}", "T"]


def fuzz_text(r, base):
    t = base
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        op = r.randrange(4)
        i = r.randint(0, len(t))
        j = min(len(t), i + r.choice([1, 1, 2, 5, 12]))
        if op == 0:
            t = t[:i] + r.choice(TOKENS) + t[i:]
        elif op == 1:
            t = t[:i] + t[j:]
        elif op == 2:
            t = t[:i] + r.choice(TOKENS) + t[j:]
        else:
            a = r.randint(0, len(t))
            b = min(len(t), a + r.randint(1, 20))
            t = t[:i] + t[a:b] + t[i:]
    return t


def reasonable(t):
    """initial value small enough to be built"""
    return not re.search(r"(size|Size)[^a-z]{0,8}[\d_]{4,}", t) and not re.search(r"\d[eE+]\d", t) and \
        not re.search(r"(size|Size)[^,}]*(0x|0o|[*&!])", t)


def check_c10(ctx):
    exe = core.build_harness(ctx, "ops")
    r = ctx.rng
    cases = []

    def fam(f):
        return f, tlc_enum(ctx, "DocGen", "DOC", 'CONSTANT Family = "%s"' % f, "gen_" + f)

    for f, es in core.pmap(fam, FAMILIES, 4):
        ctx.add("documents_enumerated_by_TLC", len(es))
        for e in es:
            cases.append(doc_case("%s%d" % (f, len(cases)), expand(e)))
    nr = 60000 if ctx.thorough else 6000
    for i in range(nr):
        g = docs.DocGen(r, hostile=r.choice([0, 0.15, 0.5]), max_nodes=r.choice([4, 8, 14, 25]))
        d = g.doc()
        if r.random() < 0.5:
            d = g.perturb(d)
        if isinstance(d, gen.Pairs) and docs.sizes_ok(d) and docs.depth(d) <= 36:  # what the harness's reader can carry
            c = doc_case("r%d" % i, d)
            if r.random() < 0.3 and d:
                c["yaml"] = block_style(gen.yaml_text, d)
            cases.append(c)
    for i in range(nr // 2):
        g = docs.DocGen(r, max_nodes=8)
        base = gen.yaml_text(g.doc()) if r.random() < 0.8 else "".join(r.choice(TOKENS) for _ in range(r.randint(0, 12)))
        t = fuzz_text(r, base)
        if reasonable(t):
            cases.append({"i": "t%d" % i, "yaml": t, "d": ["text"]})
    ctx.samples += [{"document": c["yaml"][:300]} for c in (cases[100], cases[len(cases) // 2], cases[-1])]
    groups = [{"i": k, "docs": p} for k, p in enumerate(core.chunk(cases, [1] * len(cases), 8 * CORES))]
    texts = {c["i"]: c["yaml"] for c in cases}
    lines = run_docs(ctx, exe, groups)
    stats = {}
    for g in lines:
        for x in g:
            k = re.search(r'"r":\["(\w+)"', x)
            stats[k.group(1)] = stats.get(k.group(1), 0) + 1
    for k, v in stats.items():
        ctx.add("documents_" + k, v)
    ctx.log("documents: %s" % stats)
    bad = ops.judge(ctx, lines, "docs")
    for g, x in bad[:5]:
        ln = json.loads(x)
        ctx.violation("document %s: the parser's answer %s is not what SpecDoc.tla says" % (ln["i"], json.dumps(ln["r"])[:300]),
                      {"yaml": texts[ln["i"]], "line": ln})
    deep(ctx, exe)
    cli_specs(ctx, cases)
    if not bad:
        damage_docs(ctx, lines)
    ctx.assumptions = ["documents are compared as YAML data: serde_yaml's reading of the text is trusted for the modelled part; "
                       "arbitrary text is only checked for totality and for the quality of an accepted space"]


def run_docs(ctx, exe, groups):
    parts = core.chunk(groups, [len(g["docs"]) for g in groups], CORES)

    def one(a):
        i, part = a
        out = []
        for g in part:
            ip, op = ctx.path("d%s.in" % g["i"]), ctx.path("d%s.out" % g["i"])
            with open(ip, "w") as f:
                f.write(json.dumps(g) + "\n")
            p = core.harness(ctx, exe, [ip, op], timeout=600, ok=tuple(range(-64, 256)))
            ls = open(op).readlines()
            if p.returncode != 0:
                # find the killer
                for c in g["docs"]:
                    with open(ip, "w") as f:
                        f.write(json.dumps({"i": 0, "docs": [c]}) + "\n")
                    q = core.harness(ctx, exe, [ip, op], timeout=600, ok=tuple(range(-64, 256)))
                    if q.returncode != 0:
                        ctx.violation("parsing kills the process (status %s)" % q.returncode, {"yaml": c["yaml"]})
                        break
                ls = [x for x in ls if x.endswith("\n")]
            out.append(ls)
        return out

    res = []
    for o in core.pmap(one, list(enumerate(parts)), CORES):
        res += o
    return [x for x in res if x]


def deep(ctx, exe):
    """very deep, very long, very wide documents must not crash the process"""
    chain = "typeDef T0: {type: const}\n" + "".join(
        "typeDef T%d: {type: optional, initPresent: true, valueType: {type: T%d}}\n" % (i, i - 1) for i in range(1, 3000)) + "x: {type: T2999}\n"
    subs = "typeDef T0: {type: const}\n" + "".join("typeDef T%d: {a: {type: T%d}}\n" % (i, i - 1) for i in range(1, 4000)) + "x: {type: T3999}\n"
    nest = "{a: " * 20000 + "{type: const}" + "}" * 20000
    seq = "[" * 50000
    wide = "".join("p%d: {type: const}\n" % i for i in range(20000))
    arr = "{type: array, size: 2, valueType: " * 100 + "{type: const}" + "}" * 100
    alias = "a: &a {type: const}\n" + "b: *a\nc: {type: *a}\n"
    cs = [{"i": n, "yaml": y, "d": ["text"]} for n, y in
          (("chain", chain), ("subs", subs), ("nest", nest), ("seq", seq), ("alias", alias))]
    groups = [{"i": "deep" + c["i"], "docs": [c]} for c in cs]
    for ls in run_docs(ctx, exe, groups):
        for x in ls:
            if '"r":["panic"' in x:
                ctx.violation("parsing a huge document panics: " + x[:200], {"line": x[:2000]})
    ctx.add("huge_documents", len(cs))
    # the same through the tool itself, whose main thread has an ordinary stack
    cli = core.build_cli(ctx)
    import subprocess
    for n, y, must in (("chain", chain, None), ("subs", subs, None), ("nest", nest, None), ("seq", seq, None), ("wide", wide, 0), ("arr", arr, None)):
        if n == "arr":
            continue
        p = ctx.path("deep.yaml")
        open(p, "w").write(y)
        q = subprocess.run([cli, "-n", "1", "-s", p, "/bin/sh"] + sh_ok(ctx), capture_output=True,
                           timeout=120, cwd=ctx.work)
        if q.returncode < 0 or q.returncode == 101 or b"panicked" in q.stderr or b"overflow" in q.stderr:
            ctx.violation("the tool crashes on a %s document: status %s %s" % (n, q.returncode, q.stderr[-200:]), {"document": y[:500]})
    # type definitions each of which doubles the one before: written in a hundred lines, no memory can hold what they expand to
    two = {"sub": "{a: {type: T%d}, b: {type: T%d}}", "variant": "{type: variant, init: a, a: {type: T%d}, b: {type: T%d}}",
           "map": "{type: anon map, initSize: 1, valueType: {a: {type: T%d}, b: {type: T%d}}}"}
    forms = {n: "typeDef T0: {type: const}\n" + "".join("typeDef T%d: %s\n" % (i, t % (i - 1, i - 1)) for i in range(1, 60)) + "x: {type: T59}\n"
             for n, t in two.items()}
    # and the same with each definition inside the scope of the one before
    forms["scopes"] = "".join("  " * i + "x:\n" + "  " * (i + 1) + "typeDef T%d: %s\n" % (i, "{type: const}" if i == 0 else two["sub"] % (i - 1, i - 1))
                              for i in range(50)) + "  " * 50 + "y: {type: T49}\n"

    def bomb(n):
        p = ctx.path("bomb-%s.yaml" % n)
        open(p, "w").write(forms[n])
        try:
            return n, subprocess.run(["/bin/sh", "-c", "ulimit -v 6000000; exec \"$@\"", "sh", cli, "-n", "1", "-s", p, "/bin/sh"] + sh_ok(ctx),
                                     capture_output=True, timeout=150, cwd=ctx.work, env=dict(os.environ, RUST_BACKTRACE="0"))
        except subprocess.TimeoutExpired:
            return n, None
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for n, q in ex.map(bomb, sorted(forms)):
            if q is None or q.returncode < 0 or q.returncode == 101 or b"panicked" in q.stderr or b"memory allocation" in q.stderr:
                ctx.violation("the tool crashes on a document of %d bytes with doubling type definitions (%s): %s" % (len(forms[n]), n, "no end" if q is None else (q.returncode, q.stderr[-200:])),
                              {"document": forms[n]})
    ctx.add("doubling_type_definitions", len(forms))


def sh_ok(ctx):
    p = ctx.path("ok.sh")
    if not os.path.exists(p):
        open(p, "w").write("echo '{\"objFuncVal\": 1.0}'\n")
    return [p]


def cli_specs(ctx, cases):
    """the same documents through the command line tool: one evaluation, or refused before any"""
    import subprocess
    cli = core.build_cli()
    pool = [c for c in cases if c["d"] != ["text"] and "\0" not in c["yaml"]]
    pick = [ctx.rng.choice(pool) for _ in range(600 if ctx.thorough else 120)]

    def one(a):
        i, c = a
        d = ctx.path("cli%d" % i)
        os.makedirs(d)
        with open(d + "/s.yaml", "w") as f:
            f.write(c["yaml"])
        with open(d + "/obj.sh", "w") as f:
            f.write("echo started >> %s/log\necho '{\"objFuncVal\": 1.0}'\n" % d)
        p = subprocess.run([cli, "-n", "1", "-s", d + "/s.yaml", "/bin/sh", d + "/obj.sh"],
                           capture_output=True, timeout=60, cwd=d)
        try:
            out = tenc.jenc(json.loads(p.stdout.decode()))
        except ValueError:
            out = ["none"]
        n = len(open(d + "/log").readlines()) if os.path.exists(d + "/log") else 0
        return json.dumps({"t": "clidoc", "i": c["i"], "d": c["d"], "rc": p.returncode, "n": n, "out": out, "msg": len(p.stderr.strip())}) + "\n"

    lines = core.pmap(one, list(enumerate(pick)), CORES)
    bad = ops.judge(ctx, [lines], "clidocs", n=1)
    texts = {c["i"]: c["yaml"] for c in pick}
    for g, x in bad[:3]:
        ln = json.loads(x)
        ctx.violation("the tool's answer to spec file %s is not what SpecDoc.tla says: %s" % (ln["i"], x[-300:]),
                      {"yaml": texts[ln["i"]], "line": ln})
    ctx.add("documents_through_the_tool", len(pick))


def damage_docs(ctx, lines):
    """the judge must notice a wrong answer"""
    import random
    r = random.Random(1)
    pool = [json.loads(x) for g in lines[:6] for x in g if '"d":["text"]' not in x]
    oks = [x for x in pool if x["r"][0] == "ok"][:40]
    errs = [x for x in pool if x["r"][0] == "err"][:40]
    dam = []
    for a in oks[:10]:
        dam.append(dict(a, r=["err", ""]))
        dam.append(dict(a, r=["panic", ""]))
    for a, b in zip(errs[:10], oks):
        dam.append(dict(a, r=b["r"]))
    for a, b in zip(oks[10:20], oks[25:]):
        if a["r"][1] != b["r"][1]:
            dam.append(dict(a, r=b["r"]))
    for a in oks[20:30]:
        s = json.loads(json.dumps(a["r"]))
        if s[1][0] == "sub":
            s[1][1].pop(next(iter(s[1][1])))
            dam.append(dict(a, r=s))
    g = [[json.dumps(x) + "\n" for x in dam]]
    c0 = dict(ctx.coverage)
    bad = ops.judge(ctx, g, "damaged", n=1)
    ctx.coverage = c0
    if len(bad) != len(dam):
        raise core.ToolError("damaged parser answers accepted: %d of %d" % (len(dam) - len(bad), len(dam)))
    ctx.add("damaged_lines_rejected", len(dam))
