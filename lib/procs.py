"""Process-level executions: the real command-line tool with objective-function processes that obey the driver.

Every run gets a user id of its own: whatever the code under test kills or deletes, it can reach nothing but this run's
processes and files, and whatever is left of the run is found by its owner.
"""
import csv
import io
import json
import os
import selectors
import signal
import socket
import subprocess
import threading
import time
import zlib

import core
import gen
import runs
import tenc

UID0 = 61000
SLOTS = 24
TICK = os.sysconf("SC_CLK_TCK")
_slots = list(range(SLOTS))
_slot_lock = threading.Condition()


def build_child(ctx):
    src = os.path.join(core.VERIF, "child", "child.rs")
    out = os.path.join(core.TARGET, "child")
    os.makedirs(core.TARGET, exist_ok=True)
    tmp = "%s.%d" % (out, os.getpid())
    p = subprocess.run(["rustc", "--edition", "2021", "-O", "-C", "debuginfo=0", "-o", tmp, src], capture_output=True, text=True)
    if p.returncode != 0:
        raise core.ToolError("rustc child.rs: " + p.stderr[-1000:])
    os.replace(tmp, out)
    return out


def now():
    return time.clock_gettime(time.CLOCK_BOOTTIME)


def stat(pid):
    """(state, start time) of a process, None if there is none"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            x = f.read()
        x = x[x.rindex(")") + 2:].split()
        return x[0], int(x[19]) / TICK
    except (OSError, ValueError, IndexError):
        return None


def owned(uid):
    """live processes of a user"""
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                if os.stat("/proc/" + d).st_uid == uid:
                    s = stat(int(d))
                    if s and s[0] not in "ZX":
                        out.append(int(d))
            except OSError:
                pass
    return out


FINE = [b'{"objFuncVal": 0.5}', b'{"objFuncVal": null}', b"{}", b"", b"hello", b'{"objFuncVal": -1e300}\n', b'{"objFuncVal": 0.5', b"null"]
BADOUT = [b"", b"hello", b'{"objFuncVal": ', b"\xff\xfe\x00", b'{"objFuncVal": 1, "x": 2}', b"[1.0]", b"1.0", b"NaN", b'{"objFuncVal": NaN}',
          b'{"objFuncVal": "1"}', b'{"objFuncVal": 1}{"objFuncVal": 1}', b'{"objFuncVal": 1}\ndone', b"done\n{\"objFuncVal\": 1}", b'{"objfuncval": 1}', b'{"objFuncVal": true}',
          b"log\n" * 4000 + b'{"objFuncVal": 1}\n', b'{"objFuncVal": 1e999}', b'{"objFuncVal": 1}\x00', b"{'objFuncVal': 1}", b"objFuncVal: 1",
          b"   ", b"[]", b"{}{}", b'{"objFuncVal": [1]}', b'{"objFuncVal": {}}', b'"{\"objFuncVal\": 1}"']


class Kid:
    """an objective-function process"""

    def __init__(self, pid, pgid, argv, conn):
        self.pid, self.pgid, self.argv, self.conn = pid, pgid, argv, conn
        self.e = None
        self.grands = []
        self.told = False
        self.bye = False
        self.gone = False
        self.hold = False
        self.buf = b""
        self.acks = 0
        self.t_seen = now()
        s = stat(pid)
        self.t_start = s[1] if s else self.t_seen


class Grand:
    def __init__(self, pid, parent, conn):
        self.pid, self.parent, self.conn, self.gone, self.buf = pid, parent, conn, False, b""


class Session:
    """one execution of the tool"""

    def __init__(self, ctx, cli, child, name):
        self.ctx, self.cli, self.child = ctx, cli, child
        with _slot_lock:
            while not _slots:
                _slot_lock.wait()
            self.slot = _slots.pop()
        self.uid = UID0 + self.slot + 100 * (os.getpid() % 20)
        self.dir = ctx.path("p-" + name)
        os.makedirs(self.dir)
        os.chmod(ctx.work, 0o755)
        os.chown(self.dir, self.uid, self.uid)
        self.sock = os.path.join(self.dir, "s")
        self.ls = socket.socket(socket.AF_UNIX)
        self.ls.bind(self.sock)
        os.chmod(self.sock, 0o777)
        self.ls.listen(64)
        self.ls.setblocking(False)
        self.sel = selectors.DefaultSelector()
        self.sel.register(self.ls, selectors.EVENT_READ, "L")
        self.kids = []          # by appearance
        self.fresh = []         # not yet numbered
        self.grands = []
        self.died = []          # kids whose end the driver has not dealt with
        self.p = None
        self.t_last = now()     # last thing that could make the tool start a process
        self.slow = False

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        os.chown(p, self.uid, self.uid)
        return p

    def start(self, args, env=None):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.dir, "RUST_BACKTRACE": "0", "CAMB_SOCK": self.sock}
        e.update(env or {})
        self.out = open(os.path.join(self.dir, ".stdout"), "wb")
        self.err = open(os.path.join(self.dir, ".stderr"), "wb")
        self.t0 = now()
        self.p = subprocess.Popen([self.cli] + args, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.out, stderr=self.err, env=e,
                                  user=self.uid, group=self.uid, extra_groups=[], start_new_session=True, close_fds=True)

    # -------------------------------------------------------------- events
    def pump(self, timeout):
        """process what happens within timeout seconds; returns after the first batch"""
        evs = self.sel.select(max(0, timeout))
        # ends first: a replacement never appears before the end it replaces
        evs.sort(key=lambda x: x[0].data == "L")
        for key, _ in evs:
            if key.data == "L":
                try:
                    c, _ = self.ls.accept()
                except OSError:
                    continue
                c.settimeout(10)
                self.hello(c)
            else:
                self.read(key.data)
        return bool(evs)

    def hello(self, c):
        b = b""
        try:
            while not b.endswith(b"\n"):
                x = c.recv(1 << 20)
                if not x:
                    break
                b += x
        except OSError:
            pass
        f = b.decode().split(" ")
        if b[:1] == b"H":
            k = Kid(int(f[1]), int(f[2]), [bytes.fromhex(x.strip()[1:]) for x in f[3:]], c)
            if k.t_start > k.t_seen:
                k.t_start = k.t_seen
            self.kids.append(k)
            self.fresh.append(k)
            self.sel.register(c, selectors.EVENT_READ, k)
        elif b[:1] == b"G":
            g = Grand(int(f[1]), int(f[3]), c)
            self.grands.append(g)
            for k in self.kids:
                if k.pid == g.parent and not k.bye:
                    k.grands.append(g)
            self.sel.register(c, selectors.EVENT_READ, g)
        else:
            # killed before it could say who it is
            c.close()

    def read(self, k):
        try:
            x = k.conn.recv(1 << 16)
        except OSError:
            x = b""
        if x:
            k.buf += x
            if isinstance(k, Kid):
                k.bye = b"bye\n" in k.buf
                k.acks = k.buf.count(b"ok\n")
            return
        self.sel.unregister(k.conn)
        k.conn.close()
        k.gone = True
        k.t_gone = now()
        if isinstance(k, Kid) and not k.bye:
            self.died.append(k)

    def wait(self, cond, timeout):
        end = now() + timeout
        while not cond():
            t = end - now()
            if t <= 0:
                return False
            self.pump(min(t, 0.005 if self.p.poll() is None else 0.0005))
            if cond():
                return True
            if self.p.poll() is not None and self.exit_seen():
                return cond()
        return True

    def exit_seen(self):
        """the tool has ended: everything that happened before is in"""
        while self.pump(0):
            pass
        return True

    def ended(self):
        return self.p.poll() is not None

    def live(self):
        return [k for k in self.kids if not k.gone]

    # -------------------------------------------------------------- commands to children
    def tell(self, k, line, ack=True):
        try:
            n = k.acks
            k.conn.sendall(line.encode() + b"\n")
        except OSError:
            return False
        if ack:
            self.wait(lambda: k.acks > n or k.gone, 10)
            return k.acks > n
        return True

    def fork(self, k, n, mode):
        have = len(k.grands)
        self.tell(k, "F %d %s" % (n, mode))
        return self.wait(lambda: len(k.grands) >= have + n or k.gone, 10) and len(k.grands) >= have + n

    def exit(self, k, code=0, out=b"", err=b"", sig=None, big=None):
        """have a process write and end; returns when it has ended, and the tool has noticed it"""
        k.told = True
        if now() - k.t_start > 0.4 * (getattr(self, "k", None) or 1e9):
            self.slow = True
        if err:
            self.tell(k, "O 2 " + err.hex())
        if big:
            self.tell(k, "L %d %02x %d" % big)
        if out:
            self.tell(k, "O 1 " + out.hex())
        self.t_last = now()
        self.tell(k, "X %d" % code if sig is None else "K %d" % sig, ack=False)
        self.wait(lambda: k.gone, 10)
        if getattr(self, "k", None) and now() - k.t_start > 0.6 * self.k:
            self.slow = True
        # reaped by the tool
        end = now() + 1.0
        while now() < end and not self.ended():
            if stat(k.pid) is None:
                break
            self.pump(0.0005)
        return k.gone and k.bye

    # -------------------------------------------------------------- end
    def leftovers(self, grace=1.5):
        """processes of this run that are alive some time after the tool ended"""
        end = now() + grace
        while True:
            self.exit_seen()
            o = owned(self.uid)
            if not o or now() > end:
                return o
            time.sleep(0.002)

    def outputs(self):
        self.out.close()
        self.err.close()
        rd = lambda n: open(os.path.join(self.dir, n), "rb").read()  # noqa: E731
        return rd(".stdout"), rd(".stderr")

    def close(self):
        try:
            if self.p is not None and self.p.poll() is None:
                self.p.kill()
            for _ in range(50):
                o = owned(self.uid)
                if not o:
                    break
                for pid in o:
                    # only processes of this run's own user
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                time.sleep(0.01)
            if self.p is not None:
                self.p.wait()
        finally:
            for k in self.kids + self.grands:
                k.conn.close()
            self.ls.close()
            self.sel.close()
            with _slot_lock:
                _slots.append(self.slot)
                _slot_lock.notify()


def num(x):
    f = float(x)
    isint = f == int(f) if abs(f) < 2**31 else False
    return tenc.flimbs(f), int(f) if isint else 0, isint


# ---------------------------------------------------------------------------------------------- reading the results
def read_rows(path):
    """detailed report: list of (id, seed, result or None, value, meta or None); None if unreadable"""
    with open(path, newline="") as f:
        lines = f.read().split("\n")
    rows = []
    for ln in lines[1:]:
        if not ln:
            continue
        f = ln.split(";")
        val = json.loads(";".join(f[7:-2]))
        meta = None if f[3] == "" else [float(x) for x in f[3:7]]
        rows.append((f[0], f[-2], None if f[-1] == "" else float(f[-1]), val, meta))
    return rows


def read_summary(path):
    out = {}
    for ln in open(path):
        if ":" in ln:
            a, b = ln.rsplit(":", 1)
            out[a.strip().lower()] = b.strip()

    def find(*words):
        for a, b in out.items():
            if all(w in a for w in words):
                return b.split()[0]
        return None

    return find("best", "value"), find("completed"), find("rejected")


OUT_DIR = "out"


def drive(ctx, cli, child, s):
    """execute a script; returns the list of events (as JSON lines), see Proc.tla"""
    S = Session(ctx, cli, child, s["sid"])
    try:
        return _drive(ctx, S, s)
    finally:
        S.close()
        if not s.get("keep"):
            import shutil
            shutil.rmtree(S.dir, ignore_errors=True)


def as_read(text):
    """the number serde_json's default reader takes a text for (known finding ulp); other texts prove nothing"""
    m, _, e = text.lstrip("-").partition("e")
    a, _, b = m.partition(".")
    e = int(e or 0) - len(b)
    f = float(int(a + b))
    if int(a + b) >= 2**64:
        return None
    while True:
        if abs(e) <= 308:
            f = f * float("1e%d" % e) if e >= 0 else f / float("1e%d" % -e)
            break
        if f == 0 or e > 0:
            break
        f /= 1e308
        e += 308
    return -f if text.startswith("-") else f


def _drive(ctx, S, s):
    ev = []
    conc, n, target, kms = s["conc"], s["n"], s["target"], s.get("k")
    guess = s["guess"]
    ev.append({"t": "run", "sid": s["sid"], "cfg": {
        "conc": conc, "n": [] if n is None else [n], "target": [] if target is None else [tenc.flimbs(target)],
        "tn": [], "sample": s["sample"], "spec": s["spec"], "guess": [] if guess is None else [tenc.jenc(guess)],
        "k": [] if not kms else [kms], "after": [] if not s.get("after") else [s["after"]]}})
    if s["sample"] > 1 and target is not None:
        ev[0]["cfg"]["tn"] = [int(target * s["sample"])]
    S.write("spec.yaml", s["yaml"])
    args = ["-s", "spec.yaml", "-o", OUT_DIR]
    if n is not None:
        args += ["-n", str(n)]
    if target is not None:
        args += ["--target-obj-func-val=%r" % target]
    if conc != 1 or s.get("explicit"):
        args += ["--num-concurrent", str(conc)]
    if s["sample"] != 1:
        args += ["--sample-size", str(s["sample"])]
    if kms:
        args += ["-k", "%dms" % kms if kms < 1000 or kms % 200 else "%ds %dms" % (kms // 1000, kms % 1000)]
        S.k = kms / 1000.0
    if s.get("after"):
        args += ["--terminate-after", "%dms" % s["after"]]
    if guess is not None:
        args += ["--initial-guess=" + json.dumps(guess)]
    if s.get("verbose"):
        args += ["-v"]
    if s.get("nosig"):
        args += ["--no-signal-result"]
    args += ["--", S.child] + s.get("args", [])
    S.start(args)

    st = {"stop": False, "done": 0, "taken": False, "term": False, "starts": 0}
    chk = s.get("kids") or [{}]

    def number():
        """new objective-function processes, in the order of their creation"""
        new = sorted(S.fresh, key=lambda k: k.pid)
        S.fresh = []
        for k in new:
            k.e = st["starts"]
            st["starts"] += 1
            try:
                val = tenc.jenc(json.loads(k.argv[-2].decode()))
                seed = k.argv[-1].decode()
            except (ValueError, IndexError):
                val, seed = ["z"], "?"
            k.seed = seed
            ev.append({"t": "start", "e": k.e, "id": seed, "seed": tenc.esc(seed), "val": val, "hon": True})
            b = chk[k.e % len(chk)]
            k.behave = b
            if b.get("ign"):
                S.tell(k, "T")
            if b.get("grands"):
                if S.fork(k, b["grands"], "quiet"):
                    ev.append({"t": "fork", "e": k.e, "n": b["grands"]})
            if b.get("hold"):
                if S.fork(k, 1, "hold"):
                    ev.append({"t": "fork", "e": k.e, "n": 1})
                    # the process itself ends, what holds its output does not
                    k.hold = True
                    S.tell(k, "O 1 " + b'{"objFuncVal": 1}'.hex())
                    k.told = True
                    S.tell(k, "X 0", ack=False)
                    S.wait(lambda: k.gone, 10)

    def holders():
        """processes that ended, but whose output was held open until now"""
        return [k for k in S.kids if k.hold and k.gone and k.grands and all(g.gone for g in k.grands) and not getattr(k, "over", False)]

    def deaths():
        """processes that ended without being told to"""
        for k in [k for k in S.died] + holders():
            if k in S.died:
                S.died.remove(k)
            else:
                k.over = True
                k.t_gone = max(g.t_gone for g in k.grands)
            if k.e is None:
                number()
            end = now() + 1.0
            while any(not g.gone for g in k.grands) and now() < end:
                S.pump(0.001)
            left = sum(not g.gone for g in k.grands)
            lo = max(0, int((k.t_gone - k.t_start) * 1000))
            if st["term"] and not st["taken"]:
                st["taken"] = True
                if not (kms and lo >= kms):
                    ev.append({"t": "taken", "ms": int((k.t_gone - S.t0) * 1000)})
            ev.append({"t": "kill", "e": k.e, "ms": lo, "left": left})
            st["done"] += 1
            S.t_last = now()

    def inflight():
        return [k for k in S.kids if k.e is not None and not (k.gone and not k.hold) and not getattr(k, "over", False)]

    def expected():
        return conc if n is None else max(0, min(conc, n - st["done"]))

    def settle(deadline=None, limit=4.0):
        """until the tool has ended or nothing more is expected to happen; True: ended"""
        end = now() + limit
        while True:
            S.wait(lambda: S.died or S.fresh or S.ended() or holders(), 0.05)
            if S.fresh and not st["stop"]:
                # let a whole batch arrive
                S.wait(lambda: len(inflight()) + len(S.fresh) >= expected() or S.ended(), 1.0)
            number()
            if S.died or holders():
                deaths()
                end = now() + limit
                continue
            if S.ended():
                S.exit_seen()
                number()
                deaths()
                return True
            fl = len(inflight())
            if not st["stop"] and fl == expected() and fl > 0:
                S.pump(0.003)
                if not S.fresh and not S.died and not S.ended():
                    ev.append({"t": "quiet"})
                    return False
                continue
            if now() > end:
                ev.append({"t": "quiet"})
                return False

    def hit(o, v):
        return o == "acc" and target is not None and v <= target

    def release(k, o, v):
        b = k.behave
        err = bytes.fromhex(b.get("err", ""))
        big = b.get("big")
        if o == "acc":
            ok = S.exit(k, 0, b.get("fmt", '{"objFuncVal": %s}').replace("%s", repr(v)).encode(), err, big=big)
        elif o == "rej":
            ok = S.exit(k, 0, b.get("rejfmt", "{}").encode(), err, big=big)
        else:
            f = b.get("fail", "exit")
            h = zlib.crc32(("%s %d" % (s["sid"], k.e)).encode())
            if f == "exit":
                # whatever it printed before it failed
                ok = S.exit(k, 1 + h % 255, FINE[h // 256 % len(FINE)], err, big=big)
            elif f == "sig":
                ok = S.exit(k, 0, FINE[h // 256 % len(FINE)], err, sig=[9, 15, 6, 11, 2, 14, 13, 1][h % 8])
            else:
                ok = S.exit(k, 0, BADOUT[h % len(BADOUT)], err, big=big)
        if not ok:
            return False
        x, i, isint = num(v)
        ev.append({"t": "done", "e": k.e, "o": o, "v": x, "n": i} if o == "acc" else {"t": "done", "e": k.e, "o": o})
        st["done"] += 1
        if o == "fail" or hit(o, v):
            st["stop"] = True
        return True

    vals = s.get("vals") or {"kind": "dec"}
    import random
    r = random.Random(s.get("rseed", 1))

    def auto_out(k):
        u = r.random()
        if u < vals.get("pfail", 0):
            return "fail", 0.0
        if u < vals.get("pfail", 0) + vals.get("prej", 0):
            return "rej", 0.0
        kind = vals["kind"]
        if kind == "dec":
            return "acc", float(100 - k.e)
        if kind == "inc":
            return "acc", float(k.e)
        if kind == "ties":
            return "acc", float(k.e % 3)
        if kind == "bits":
            while True:
                v = r.choice([-1, 1]) * r.random() * 10.0 ** r.choice([r.randint(-290, 290), r.randint(-20, 20)])
                if as_read(repr(v)) == v:
                    return "acc", v
        if kind == "huge":
            return "acc", r.choice([1e300, -1e300, 5e-324, -0.0, 0.0, 123456789.5])
        return "acc", float(r.randint(-50, 50))

    ended = settle(limit=8.0)
    todo = [list(x) if isinstance(x, (list, tuple)) else x for x in s["steps"]]
    rounds = 0
    quiets = 0
    while not ended and quiets < 2:
        rounds += 1
        if todo:
            x = todo.pop(0)
        elif rounds > s.get("max", 60):
            x = ["int"]
        else:
            x = ["rel", r.randint(0, 9), "auto", 0.0]
        if x[0] == "rel":
            fl = [k for k in inflight() if not k.hold and not k.gone]
            if fl:
                k = fl[x[1] % len(fl)]
                if kms and k.behave.get("hang"):
                    x = ["timeout"]
                else:
                    o, v = (x[2], float(x[3])) if x[2] != "auto" else auto_out(k)
                    release(k, o, v)
            elif inflight():
                x = ["int"] if not kms else ["timeout"]
        if x[0] == "burst":
            # several at once: nothing is said about the order in which the tool sees them
            fl = [k for k in inflight() if not k.hold and not k.gone]
            outs = []
            for k in fl[:x[1]]:
                o, v = auto_out(k)
                k.told = True
                S.tell(k, "O 1 " + ('{"objFuncVal": %r}' % v if o == "acc" else "{}").encode().hex())
                outs.append((k, o, v))
            for k, o, v in outs:
                S.tell(k, "X 0" if o != "fail" else "X 3", ack=False)
            for k, o, v in outs:
                S.wait(lambda: k.gone, 10)
            for k, o, v in outs:
                y, i, isint = num(v)
                ev.append({"t": "done", "e": k.e, "o": o, "v": y, "n": i} if o == "acc" else {"t": "done", "e": k.e, "o": o})
                st["done"] += 1
                if o == "fail" or hit(o, v):
                    st["stop"] = True
        if x[0] == "timeout" and kms:
            # until all that are in flight have been killed
            fl = inflight()
            left = lambda: [k for k in fl if not (k.gone and not k.hold) and not getattr(k, "over", False)]  # noqa: E731
            if s.get("one"):
                fl = fl[:1]
            end = max([k.t_start for k in fl], default=now()) + kms / 1000.0 + 4.0
            while left() and now() < end and not S.ended():
                S.wait(lambda: S.died or S.ended(), 0.02)
                number()
                deaths()
            if left() and not S.ended():
                ev.append({"t": "overdue", "e": left()[0].e})
                break
        if x[0] in ("int", "after"):
            if x[0] == "int":
                ev.append({"t": "term"})
                st["term"] = st["stop"] = True
                S.t_last = now()
                S.p.send_signal(signal.SIGINT)
                for _ in range(s.get("ints", 1) - 1):
                    time.sleep(0.003)
                    if not S.ended():
                        S.p.send_signal(signal.SIGINT)
            else:
                if now() - S.t0 > 0.6 * s["after"] / 1000.0:
                    S.slow = True
                ev.append({"t": "term"})
                st["term"] = st["stop"] = True
        if x[0] == "sleep":
            S.wait(lambda: S.ended(), x[1])
        ended = settle(limit=4.0 if x[0] != "after" else 4.0 + s["after"] / 1000.0)
        if not ended and (st["stop"] or len(inflight()) != expected()):
            quiets += 1  # it says nothing more: no use in going on for long
    if not ended:
        # what is in flight ends; still no return: it hangs
        for k in S.live():
            S.tell(k, "X 0", ack=False)
        if not S.wait(S.ended, 3):
            ev.append({"t": "hang"})
    res(S, s, ev, st)
    lines = [json.dumps(x) + "\n" for x in ev]
    return lines, S.slow


def res(S, s, ev, st):
    """what the tool left behind"""
    if S.p.poll() is None:
        S.p.kill()
        S.p.wait()
    S.t_end = now()
    left = S.leftovers()
    rc = S.p.returncode
    if st["term"] and not st["taken"]:
        ev.append({"t": "taken", "ms": int((S.t_end - S.t0) * 1000)})
    out, err = S.outputs()
    od = os.path.join(S.dir, OUT_DIR)
    by_seed = {k.seed: k.e for k in S.kids if k.e is not None}
    if any(x["t"] == "hang" for x in ev):
        pass
    elif rc < 0 or b"panicked at" in err:
        ev.append({"t": "panic", "msg": tenc.esc(err[-300:].decode("utf-8", "replace")), "rc": rc})
    elif rc == 0:
        try:
            v, c, rj = read_summary(os.path.join(od, "summary_report.txt"))
            x, i, isint = num(float(v) * s["sample"])
            x = tenc.flimbs(float(v))
            val = tenc.jenc(json.loads(out.decode()))
            ret = {"t": "ret", "ok": True, "v": x, "n": i, "isint": isint, "val": val, "acc": int(c), "rej": int(rj)}
        except (OSError, ValueError, TypeError) as e:
            ret = {"t": "noreport", "what": tenc.esc(repr(e))}
        ev.append(ret)
    else:
        kind, e = "noind", 0
        if os.path.exists(os.path.join(od, "failed_obj_func_arg")):
            kind = "fail"
            seed = open(os.path.join(od, "failed_obj_func_arg"), "rb").read().split()[-1:]
            e = by_seed.get(seed[0].decode() if seed else "", -1)
        ev.append({"t": "ret", "ok": False, "err": kind, "e": e, "acc": 0, "rej": 0})
    ev.append({"t": "procs", "alive": len(left)})
    ids = {}
    try:
        rows = read_rows(os.path.join(od, "detailed_report.csv"))
        for i, seed, r, val, meta in rows:
            ids[seed] = i
            ev.append({"t": "rec", "id": i, "seed": tenc.esc(seed), "res": [] if r is None else [tenc.flimbs(r)], "val": tenc.jenc(val),
                       "meta": [] if meta is None else [["f", tenc.flimbs(x)] for x in meta]})
    except (OSError, ValueError, IndexError) as e:
        if rc >= 0:
            ev.append({"t": "noreport", "what": tenc.esc(repr(e))})
    b = os.path.join(od, "best_seen.json")
    if os.path.exists(b):
        try:
            ev.append({"t": "bestfile", "val": tenc.jenc(json.loads(open(b).read()))})
        except ValueError:
            ev.append({"t": "bestfile", "val": ["s", "unreadable"]})
    else:
        ev.append({"t": "nobestfile"})
    ev.append({"t": "end"})
    # individuals are known by the detailed report only
    for x in ev:
        if x["t"] == "start":
            x["id"] = ids.get(x["id"], "?" + x["id"])


def script(sid, spec=None, conc=1, n=None, target=None, sample=1, guess=None, steps=(), **kw):
    spec = spec or runs.SIMPLE
    d = {"sid": sid, "yaml": gen.spec_yaml(spec), "spec": tenc.spec_enc(spec), "conc": conc, "n": n, "target": target, "sample": sample,
         "guess": guess, "steps": list(steps)}
    d.update(kw)
    return d


def execute(ctx, cli, child, scripts, n=16):
    """list of (script, event lines); executions that were too slow to say anything about time are repeated"""
    def one(s):
        for i in range(4):
            lines, slow = drive(ctx, cli, child, s)
            if not slow:
                return s, lines
            ctx.add("slow_executions_repeated", 1)
        ctx.add("slow_executions_given_up", 1)
        return None

    return [x for x in core.pmap(one, scripts, n) if x]


_ = (csv, io)
