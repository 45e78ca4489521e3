"""Known findings: defects of the tree that are recorded instead of repaired (KNOWN_FINDINGS)."""
import os
import re

import core

FILE = os.path.join(core.VERIF, "KNOWN_FINDINGS")


def listed(prop):
    """finding ids listed for a property"""
    out = {}
    with open(FILE) as f:
        for line in f:
            m = re.match(r"KNOWN-FINDING: property=(\w+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def finding(ctx, ident, fails, what, payload):
    """one probed input: quiet if it works, known if it is listed, a violation otherwise"""
    if not fails:
        return
    l = listed(ctx.prop)
    if ident in l:
        ctx.known.append("id=%s %s" % (ident, l[ident]))
    else:
        ctx.violation(what, payload)


NUMBER = "0.9474732860096987"


def ulp_probe(ctx):
    """serde_json's default number reader is off by one unit in the last place for some decimal texts"""
    import csv
    import subprocess
    cli = core.build_cli(ctx)
    d = ctx.path("ulp")
    os.makedirs(d)
    with open(d + "/s.yaml", "w") as f:
        f.write("type: real\ninit: 0.5\nscale: 1.0\n")
    with open(d + "/o.sh", "w") as f:
        f.write("printf '%%s\\n' \"$1\" >> %s/log\necho '{\"objFuncVal\": %s}'\n" % (d, NUMBER))
    p = subprocess.run([cli, "-n", "1", "-s", d + "/s.yaml", "--initial-guess", NUMBER, "-o", d + "/out", "/bin/sh", d + "/o.sh"],
                       capture_output=True, timeout=60, cwd=d)
    if p.returncode != 0:
        ctx.violation("the number probe fails: %s" % p.stderr[-200:], {"number": NUMBER})
        return
    got = open(d + "/log").read().split()
    if ctx.prop == "C11":
        finding(ctx, "ulp", [float(x) for x in got] != [float(NUMBER)], "a guess of %s reaches the objective function as %s" % (NUMBER, got),
                {"number": NUMBER, "got": got})
        return
    if not os.path.exists(d + "/out/detailed_report.csv"):
        return
    with open(d + "/out/detailed_report.csv") as f:
        rows = list(csv.reader(f, delimiter=";"))
    vals = []
    for x in (x for row in rows[1:] for x in row):
        try:
            vals.append(float(x))
        except ValueError:
            pass
    finding(ctx, "ulp", float(NUMBER) not in vals, "a printed objective value of %s is recorded as %s" % (NUMBER, rows[1:]),
            {"number": NUMBER, "rows": rows})
