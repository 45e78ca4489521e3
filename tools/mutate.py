#!/usr/bin/env python3
"""mutate.py survive OUT.jsonl [N SEED] : small textual mutants of /repo/src that compile and pass the tests (scratch copies under /tmp/mut)
mutate.py check OUT.jsonl RES.jsonl     : run the checks in charge against each of them, in a private mount namespace"""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, threading

STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SWAP = [("<=", "<"), (">=", ">"), (" < ", " <= "), (" > ", " >= "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
        (" + 1", ""), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), ("true", "false"), ("false", "true"), (".min(", ".max("),
        (".max(", ".min("), ("is_none()", "is_some()"), ("is_some()", "is_none()"), ("if !", "if "), (" 0.5", " 0.25"), ("saturating_sub(1)", "saturating_sub(2)"),
        ("unwrap_or(", "map(|_| Default::default()).unwrap_or("), (".first()", ".last()"), (".last()", ".first()"), ("1..", "0.."), ("+= 1", "+= 2"), ("-= 1", "-= 2"),
        (".filter(", ".skip(1).filter("), ("Some(", "None.or(Some("), (".iter()", ".iter().rev()"), ("break", "continue"), ("continue", "break"),
        (".take(", ".skip("), (".skip(", ".take("), ("is_empty()", "is_empty() == false"), (".sort", ".len(); //.sort"), (".dedup", ".len(); //.dedup"),
        (".values()", ".values().take(50)"), (".values()", ".values().skip(1)"), (".len()", ".len().min(16)"), ("i64::MAX", "i64::MAX / 2"), ("f64::MAX", "1e100"),
        ("None =>", "None if false =>"), ("abs()", "clone()"), (".clone()", ".clone()")]
RELEVANT = {
    "algorithm.rs": "C02 C08 C05 C14 C15 C04 C17 C09", "async_launch.rs": "C04 C06 C15", "controller.rs": "C03 C04 C05 C06 C14 C02 C15 C08", "crossover.rs": "C12 C17 C01 C09",
    "detailed_report.rs": "C14", "meta.rs": "C03 C05 C16", "meta_adapt.rs": "C14 C15 C17", "mutation.rs": "C13 C17 C01 C15 C09", "path.rs": "C12 C13 C01 C15 C09",
    "process.rs": "C07 C16 C06 C15 C05", "rescaling.rs": "C13 C17 C14 C15 C12", "result.rs": "C14 C16 C02", "selection.rs": "C17 C12", "spec.rs": "C10 C01 C08 C11", "spec_util.rs": "C10 C16",
    "sync_launch.rs": "C14 C04 C05 C16 C15", "termination.rs": "C16 C03 C04", "value.rs": "C11 C01 C16", "value_util.rs": "C11 C16 C01", "cambrian.rs": "C16 C07 C04 C14", "common_util.rs": "C10 C11",
    "error.rs": "C16 C10", "lib.rs": "C16", "message.rs": "C04", "testutil.rs": "", "types.rs": ""}


def sources():
    for d, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            if f.endswith(".rs") and f not in ("testutil.rs", "error.rs"):
                yield os.path.join(d, f)


def mutants():
    out = []
    for p in sources():
        lines = open(p).read().split("\n")
        rel = os.path.relpath(p, "/repo")
        for i, ln in enumerate(lines):
            if ln.strip() == "#[cfg(test)]" and i > 60:
                break
            t = ln.strip()
            if not t or t.startswith(("//", "use ", "#[", "pub use", "mod ", "info!", "trace!", "debug!", "fn ", "pub fn", "impl", "pub struct", "struct", "pub(crate) use")):
                continue
            for a, b in SWAP:
                if a == b:
                    continue
                for m in re.finditer(re.escape(a), ln):
                    new = ln[:m.start()] + b + ln[m.end():]
                    if b.startswith("None.or("):
                        k = new.rfind(")")
                        new = new[:k] + ")" + new[k:]
                    out.append((rel, i, ln, new))
            # a number
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", ln):
                out.append((rel, i, ln, ln[:m.start()] + str(int(m.group(1)) + 1) + ln[m.end():]))
            # a condition
            m = re.match(r"^(\s*(?:\} else )?if )([^{]+?)( \{)$", ln)
            if m and not m.group(2).startswith("let"):
                out.append((rel, i, ln, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
                out.append((rel, i, ln, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3)))
            # a statement
            if t.endswith(";") and not t.startswith(("let", "return", "}", ")", ".", "use", "pub", "const", "type")):
                out.append((rel, i, ln, "// gone"))
    seen = set()
    res = []
    for m in out:
        if (m[0], m[1], m[3]) not in seen:
            seen.add((m[0], m[1], m[3]))
            res.append(m)
    return res


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def passes(out):
    """does the output of cargo test show a failure of a stable test?"""
    return not re.search(r"^test .* FAILED$|panicked|error(\[|:)", out, re.M) or not re.search(r"^test \S+ \.\.\. FAILED$|could not compile|^error", out, re.M)


def survive(outp, n, seed):
    ms = mutants()
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    print(len(ms), "mutants")
    lock = threading.Lock()
    free = []
    for w in range(4):
        d = "/tmp/mut/w%d" % w
        if not os.path.isdir(d):
            os.makedirs("/tmp/mut", exist_ok=True)
            sh("cp -a /repo %s" % d)
        free.append(d)
    cnt = {"no": 0, "killed": 0, "alive": 0}
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))

    def one(m):
        if (m[0], m[1], m[3]) in done:
            return
        with lock:
            d = free.pop()
        try:
            p = os.path.join(d, m[0])
            src = open(os.path.join("/tmp/mut/base", m[0])).read().split("\n")
            src[m[1]] = m[3]
            open(p, "w").write("\n".join(src))
            env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
            b = sh("timeout 120 cargo build --offline -q 2>&1", cwd=d, env=env)
            if b.returncode != 0:
                r = "no"
            else:
                t = sh("timeout -k 5 100 cargo test --workspace --offline -- --test-threads 2 2>&1", cwd=d, env=env)
                r = "alive" if t.returncode == 0 else "killed"
            open(p, "w").write("\n".join(open(os.path.join("/tmp/mut/base", m[0])).read().split("\n")))
            with lock:
                cnt[r] += 1
                if r == "alive":
                    with open(outp, "a") as f:
                        f.write(json.dumps({"file": m[0], "line": m[1], "old": m[2], "new": m[3]}) + "\n")
                if sum(cnt.values()) % 50 == 0:
                    print(cnt, flush=True)
        finally:
            with lock:
                free.append(d)

    shutil.rmtree("/tmp/mut/base", ignore_errors=True)
    sh("mkdir -p /tmp/mut/base && cp -a /repo/src /tmp/mut/base/src")
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("W", "4"))) as ex:
        list(ex.map(one, ms))
    print(cnt)


def check(inp, outp):
    """re-executes itself in a mount namespace where /repo and /verif are private copies"""
    if os.environ.get("MUTATE_NS") != "1":
        for d in ("repo", "verif"):
            os.makedirs("/tmp/mut/ns-" + d, exist_ok=True)
        sh("rsync -a --delete --exclude target /repo/ /tmp/mut/ns-repo/ || (rm -rf /tmp/mut/ns-repo; cp -a /repo /tmp/mut/ns-repo)")
        sh("rm -rf /tmp/mut/ns-verif; mkdir /tmp/mut/ns-verif; cd /verif && tar cf - --exclude=./work --exclude=./target --exclude=./seeded . | tar xf - -C /tmp/mut/ns-verif")
        env = dict(os.environ, MUTATE_NS="1")
        os.execvpe("unshare", ["unshare", "-m", "bash", "-c", "mount --bind /tmp/mut/ns-repo /repo && mount --bind /tmp/mut/ns-verif /verif && cd /verif && exec nice -n 5 python3 /verif/tools/mutate.py check %s %s" % (inp, outp)], env)
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    for l in open(inp):
        m = json.loads(l)
        if (m["file"], m["line"], m["new"]) in done:
            continue
        p = "/repo/" + m["file"]
        orig = open(p).read()
        src = orig.split("\n")
        assert src[m["line"]] == m["old"], m
        src[m["line"]] = m["new"]
        open(p, "w").write("\n".join(src))
        res = {}
        for prop in RELEVANT.get(os.path.basename(m["file"]), "").split():
            r = sh("timeout 900 python3 check.py %s" % prop, cwd="/verif")
            res[prop] = r.returncode
            if r.returncode == 1:
                m["first"] = [x for x in r.stdout.split("\n") if "violation:" in x][:1]
                break
            if r.returncode not in (0, 1):
                m["tool"] = r.stdout[-600:]
        open(p, "w").write(orig)
        m["res"] = res
        m["caught"] = 1 in res.values()
        with open(outp, "a") as f:
            f.write(json.dumps(m) + "\n")
        print(m["caught"], m["file"], m["line"] + 1, m["new"].strip()[:80], res, flush=True)


if sys.argv[1] == "survive":
    survive(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 10**9, int(sys.argv[4]) if len(sys.argv) > 4 else 1)
else:
    check(sys.argv[2], sys.argv[3])
