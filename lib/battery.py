"""The battery of spec/Battery.tla as parameter spaces and optima."""
import checks_ops


def space(p, r):
    """-> (space, optimum); r varies the irrelevant details (which optimum, which start)"""
    d, e, k = p["dim"], p["exp"], p["shape"]

    def sub(f):
        fs = [f(i) for i in range(d)]
        return ("sub", {"p%d" % i: a for i, (a, _) in enumerate(fs)}), {"p%d" % i: b for i, (_, b) in enumerate(fs)}

    if k == "reals":
        s = 10.0 ** e

        def f(i):
            o = r.uniform(-5, 5) * s
            return ("real", o + r.choice([-1, 1]) * r.uniform(2, 4) * s, s, None, None), o
        return sub(f)
    if k == "mixed":
        def f(i):
            s = 10.0 ** (i - 2)
            o = r.uniform(-5, 5)
            return ("real", o + r.choice([-1, 1]) * r.uniform(2, 4) * s, s, None, None), o
        return sub(f)
    if k == "bound":
        def f(i):
            lo = float(r.randint(-5, 5))
            return ("real", lo + r.uniform(2, 4), 1.0, lo, lo + 10.0), lo
        return sub(f)
    if k == "grid":
        def f(i):
            o = r.randint(-8, 8)
            return ("int", o + r.choice([-1, 1]) * r.randint(3, 8), 2.0, -20, 20), o
        return sub(f)
    if k == "ints":
        def f(i):
            o = r.randint(-10000, 10000)
            return ("int", o + r.choice([-1, 1]) * r.randint(300, 400), 100.0, None, None), o
        return sub(f)
    if k == "onemax":
        def f(i):
            o = r.random() < 0.5
            return ("bool", not o), o
        return sub(f)
    if k == "map":
        return ("sub", {"m": ("anon", ("bool", True), e, None, 12)}), {"m": {"$size": d}}
    if k == "mapvals":
        o = r.uniform(-5, 5)
        return ("sub", {"m": ("anon", ("real", o + 3.0, 1.0, None, None), e, None, 12)}), {"m": {"$size": d, "$each": o}}
    if k == "choice":
        def f(i):
            ns = ["a", "b", "c"]
            o = r.choice(ns)
            w = r.choice([n for n in ns if n != o])
            if i % 2:
                return ("enum", ns, w), o
            return ("variant", {n: ("bool", n != o) for n in ns}, w), {o: True}
        return sub(f)
    if k == "opts":
        def f(i):
            if i % 2:
                return ("optional", ("bool", False), True), None
            return ("optional", ("bool", False), False), True
        return sub(f)


def problems(ctx):
    return checks_ops.tlc_enum(ctx, "BatteryGen", "BATTERY", "", "battery")
