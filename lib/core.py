"""Shared machinery: building the harness, running TLC, verdicts, evidence."""
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
TLA = "/opt/veriftools/tla/"
CORES = 8
LOCK = threading.Lock()


class ToolError(Exception):
    pass


class Ctx:
    """one execution of one check"""

    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.phases = []

    def path(self, *p):
        return os.path.join(self.work, *p)

    def budget(self):
        """seconds a quick (thorough) check may use"""
        return 1800 if self.thorough else 150

    def elapsed(self):
        return time.time() - self.t0

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, self.elapsed(), msg), flush=True)

    def add(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def violation(self, what, payload):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        with LOCK:
            self._violation(what, payload, d)

    def _violation(self, what, payload, d):
        p = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "case": payload}, f, indent=1)
            f.write("\n")
        self.violations.append((what, p))
        self.log("violation: " + what[:600])

    def finish(self):
        ev = {
            "property": self.prop,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed,
            "level": self.level,
            "coverage": dict(self.coverage),
            "assumptions": self.assumptions,
            "wall_s": round(self.elapsed(), 2),
            "violations": len(self.violations),
        }
        ev["coverage"]["samples"] = self.samples[:6]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)))
        print("%s %s: %s in %.1fs" % (self.prop, self.tier, "VIOLATED" if self.violations else "held", self.elapsed()))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


# ------------------------------------------------------------------ building
def _cargo(args, cwd, flags, target, fingerprint):
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = flags
    env["CARGO_PROFILE_DEV_DEBUG"] = "0"
    env["CARGO_INCREMENTAL"] = "0"
    env.pop("RUSTC_WRAPPER", None)
    # rebuild the crate under test unconditionally: mtimes are no evidence of what is in the tree
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(fingerprint):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--offline"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("cargo build failed:\n" + p.stdout[-4000:])


def build_harness(ctx=None, which="harness"):
    _cargo(["--bin", which], os.path.join(VERIF, "harness"), "--cfg cambrian_verif", os.path.join(TARGET, "h"),
           ("cambrian-", "harness-"))
    if ctx:
        ctx.log("harness built")
    return os.path.join(TARGET, "h", "debug", which)


def build_cli(ctx=None):
    _cargo(["--manifest-path", REPO + "/Cargo.toml", "--bin", "cambrian"], VERIF, "", os.path.join(TARGET, "c"),
           ("cambrian-",))
    if ctx:
        ctx.log("cambrian built")
    return os.path.join(TARGET, "c", "debug", "cambrian")


def build_fakeclock(ctx):
    """a shared object that makes clocks run faster, for LD_PRELOAD; None where it cannot be built"""
    so = os.path.join(ctx.work, "fakeclock.so")
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(VERIF, "lib", "fakeclock.c"), "-ldl"], capture_output=True, text=True)
    if p.returncode:
        ctx.log("no fake clock: %s" % p.stderr[-300:])
        return None
    return so


def harness(ctx, exe, args, timeout=600, ok=(0,), env=None, prefix=(), cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(list(prefix) + [exe] + args, cwd=cwd or ctx.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=timeout, env=e)
    if p.returncode not in ok:
        raise ToolError("harness %s: exit %s\n%s\n%s" % (args, p.returncode, p.stdout[-2000:], p.stderr[-2000:]))
    return p


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        self.ok = rc == 0 and "No error has been found" in out

    def stat(self):
        import re
        m = re.findall(r"([\d,]+) states generated[^\n]*?, ([\d,]+) distinct states found", out_strip(self.out))
        return (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)


def out_strip(s):
    return s


def tlc(module, cfg_text, workdir, name, workers=1, heap="2g", timeout=900, extra=(), env=None):
    d = os.path.join(workdir, name)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xss256m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4",
           "-cp", TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar",
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
           "-nowarning", "-noGenerateSpecTE", "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired as x:
        raise ToolError("TLC on %s timed out after %ss\n%s" % (module, timeout, (x.stdout or b"")[-1500:]))
    return TlcResult(p.returncode, p.stdout)


def pmap(fn, items, n=CORES):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def chunk(items, weights, k):
    """distribute items over at most k bins of similar weight, keeping order inside bins"""
    bins = [[0, []] for _ in range(max(1, min(k, len(items))))]
    for i in sorted(range(len(items)), key=lambda i: -weights[i]):
        b = min(bins, key=lambda b: b[0])
        b[0] += weights[i]
        b[1].append(i)
    return [[items[i] for i in sorted(b[1])] for b in bins if b[1]]


def tla_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
