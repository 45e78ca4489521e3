"""Random and enumerated spec documents (YAML data model) for SpecDoc.tla."""
import copy

import gen
import tenc
from gen import Pairs


def denc(d):
    """document -> encoding of SpecDoc.tla"""
    if isinstance(d, Pairs):
        return ["m", [[denc(k), denc(v)] for k, v in d]]
    if d is None:
        return ["z"]
    if isinstance(d, bool):
        return ["b", d]
    if isinstance(d, int):
        n = max(-2 * 10**9, min(2 * 10**9, d))
        if -(2**63) <= d < 2**63:
            return ["i", tenc.ilimbs(d), tenc.flimbs(d), n]
        return ["u", tenc.flimbs(d), n]
    if isinstance(d, float):
        if d != d or d in (float("inf"), float("-inf")):
            return ["nonf"]
        return ["f", tenc.flimbs(d)]
    if isinstance(d, str):
        return ["s", tenc.esc(d)]
    if isinstance(d, list):
        return ["a", [denc(x) for x in d]]
    raise ValueError(d)


def ddec(e):
    """inverse of denc (for documents enumerated by TLC)"""
    k = e[0]
    if k == "m":
        return Pairs((ddec(a), ddec(b)) for a, b in e[1])
    if k == "z":
        return None
    if k == "b":
        return e[1]
    if k == "i":
        o = tenc.unlimbs(e[1]) ^ (1 << 63)
        return o - 2**64 if o >> 63 else o
    if k == "f":
        return tenc.funlimbs(e[1])
    if k == "nonf":
        return float("nan")
    if k == "s":
        return e[1]
    if k == "a":
        return [ddec(x) for x in e[1]]
    raise ValueError(k)


SCALARS = [None, True, False, "x", "", 0, 1, 2, 3, -1, 0.0, -0.0, 1.5, 2.0, -1.5, float("nan"), float("inf"), float("-inf"),
           2**63, 2**63 - 1, -(2**63), 1e300, 5e-324, "1", "true", "null", "real", "sub", "anon map", "type", [], ["a"], ["a", "b"]]
ATTRS = ["type", "init", "scale", "min", "max", "size", "valueType", "initSize", "minSize", "maxSize", "values", "initPresent",
         "foo", "Type", "Init", "typeDef", "typeDef ", "typeDefT", "typeDef T1", "typeDef real", "typeDef anon map", "initsize"]
TYPENAMES = ["T1", "T2", "T3", "t", "Real", "anon", "map", "array ", "T 4", "x y", "const2", "type"]


class DocGen:
    def __init__(self, rng, hostile=0.15, max_nodes=12):
        self.r = rng
        self.g = gen.Gen(rng, hostile=hostile, extreme=0.15)
        self.max_nodes = max_nodes

    def doc(self):
        self.left = self.max_nodes
        if self.r.random() < 0.05:
            d = ("sub", {self.g.names(1)[0]: self.g.chain(self.r.choice([6, 9, 12, 17, 24]))})
            return self.deep(gen.doc(d), 0)
        k = self.r.random()
        return self.node(0, [], "sub" if k < 0.7 else None)

    def order(self, ps):
        if self.r.random() < 0.5:
            self.r.shuffle(ps)
        return Pairs(ps)

    def deep(self, d, level):
        """a document of its own from that of a deep space: shuffled, with type definitions on the way"""
        if not isinstance(d, dict):
            return self.wrap(d)
        ps = [(k, self.deep(v, level + 1)) for k, v in d.items()]
        if d.get("type", "sub") == "sub" and self.r.random() < 0.25:
            i = self.r.randrange(len(ps))
            k, v = ps[i]
            if isinstance(v, Pairs):
                n = "Lv%d" % level
                ps[i] = (k, Pairs([("type", n)]))
                return Pairs([("typeDef " + n, v)] + ps)
        return self.order(ps)

    def node(self, depth, scope, kind=None):
        r = self.r
        self.left -= 1
        if kind is None:
            if scope and r.random() < 0.35:
                return Pairs([("type", r.choice(scope if r.random() < 0.93 else TYPENAMES))])
            if depth >= 5 or self.left <= 0 or r.random() < 0.25:
                kind = r.choice(gen.LEAVES)
            else:
                kind = r.choice(["sub", "sub", "sub", "array", "anon", "variant", "optional"] + gen.LEAVES)
        if kind in gen.LEAVES:
            d = gen.doc(self.g.node(9, kind))
            if kind in ("real", "int"):
                d = self.num(d, kind)
            return self.order([(k, self.wrap(v)) for k, v in d.items()])
        if kind == "sub":
            ps = [] if r.random() < 0.6 else [("type", "sub")]
            inner = list(scope)
            defs = []
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                n = r.choice(TYPENAMES[:4] if r.random() < 0.8 else TYPENAMES)
                if ("typeDef " + n) in [k for k, _ in defs]:
                    continue
                defs.append(("typeDef " + n, self.node(depth + 1, inner)))
                inner.append(n)
            # definitions are processed in document order: keep it, members may stand anywhere
            mem = [(n, self.node(depth + 1, inner)) for n in self.g.names(r.randint(1, 3))]
            if r.random() < 0.5:
                return Pairs(ps + defs + mem)
            out = list(defs)
            for m in mem + ps:
                out.insert(r.randint(0, len(out)), m)
            return Pairs(out)
        if kind == "array":
            return self.order([("type", "array"), ("size", r.choice([2, 2, 3, 1, 0] if r.random() < 0.15 else [2, 3])),
                               ("valueType", self.node(depth + 1, scope))])
        if kind == "anon":
            a = self.g.node(9, "anon")
            ps = [("type", "anon map"), ("initSize", a[2]), ("valueType", self.node(depth + 1, scope))]
            if a[3] is not None:
                ps.append(("minSize", a[3]))
            if a[4] is not None:
                ps.append(("maxSize", a[4] if r.random() < 0.9 else 2**40))
            return self.order(ps)
        if kind == "variant":
            ns = self.g.names(r.randint(2, 3), ("type", "init"))
            return self.order([("type", "variant"), ("init", r.choice(ns))] + [(n, self.node(depth + 1, scope)) for n in ns])
        if kind == "optional":
            return self.order([("type", "optional"), ("valueType", self.node(depth + 1, scope)), ("initPresent", r.random() < 0.5)])

    def wrap(self, v):
        return list(v) if isinstance(v, list) else v

    def num(self, d, kind):
        """numbers at and around their bounds"""
        r = self.r
        if r.random() < 0.5:
            return d
        if r.random() < 0.3:
            # the ends of the number types
            ext = ([-2**63, -2**63 + 1, -2**62, -2**53, -1, 0, 1, 2**31, 2**53 + 1, 2**62, 2**63 - 2, 2**63 - 1] if kind == "int" else
                   [-1.7976931348623157e308, -1e308, -1.0, -5e-324, -0.0, 0.0, 5e-324, 2.0**-1022, 1.0, 1e308, 1.7976931348623157e308])
            lo, mid, hi = sorted(r.choice(ext) for _ in range(3))
            if r.random() < 0.25:
                lo, mid = mid, lo
            elif r.random() < 0.25:
                mid, hi = hi, mid
            d = {"type": kind, "init": mid, "scale": 1.0, "min": lo, "max": hi}
            for k in ("init", "min", "max"):
                if r.random() < 0.2:
                    del d[k]
            return d
        if kind == "int":
            a = r.randint(-3, 3)
            d = {"type": "int", "init": a + r.choice([0, 1, 2, -1, 3]), "scale": r.choice([1, 0.5, 2, 1, 1, 1, 0, -1, 0.0])}
            if r.random() < 0.7:
                d["min"] = a + r.choice([0, 0, 0, 1, 2])
            if r.random() < 0.7:
                d["max"] = a + r.choice([2, 2, 1, 0])
        else:
            a = r.choice([0.0, 1.0, -2.5, 1e10, -0.0, 1e-300])
            d = {"type": "real", "init": r.choice([a, a + 1, a + 0.5, a - 1, a + 2]), "scale": r.choice([1, 0.5, 1e100, 5e-324, 0.0, -0.0, -1.0])
                 if r.random() < 0.4 else 1.0}
            if r.random() < 0.7:
                d["min"] = r.choice([a, a, a + 1, int(a) if abs(a) < 1e9 else a])
            if r.random() < 0.7:
                d["max"] = a + r.choice([2, 2, 1, 0])
        return d

    # ---------------------------------------------------------------- perturbations: SpecDoc.tla decides what they mean
    def maps(self, d, acc):
        if isinstance(d, Pairs):
            acc.append(d)
            for _, v in d:
                self.maps(v, acc)
        elif isinstance(d, list):
            for x in d:
                self.maps(x, acc)
        return acc

    def perturb(self, d):
        r = self.r
        d = copy.deepcopy(d)
        if not isinstance(d, Pairs):
            return d
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            ms = self.maps(d, [])
            m = r.choice(ms)
            op = r.randrange(10)
            i = r.randrange(len(m)) if m else None
            if op == 0 and m:
                del m[i]
            elif op == 1 and m:
                m[i] = (r.choice(ATTRS), m[i][1])
            elif op in (2, 3) and m:
                m[i] = (m[i][0], copy.deepcopy(r.choice(SCALARS)))
            elif op == 4:
                m.insert(r.randint(0, len(m)), (r.choice(ATTRS), copy.deepcopy(r.choice(SCALARS))))
            elif op == 5 and m:
                m[i] = (r.choice([1, None, True, 1.5, -1]), m[i][1])
            elif op == 6:
                o = r.choice(ms)
                if m and o and not any(x is m for x in self.maps(o, [])):
                    m[i] = (m[i][0], copy.deepcopy(o))
            elif op == 7 and m:
                ks = [j for j, (k, v) in enumerate(m) if isinstance(v, list) and not isinstance(v, Pairs)]
                if ks:
                    j = r.choice(ks)
                    v = m[j][1]
                    if v and r.random() < 0.6:
                        v[r.randrange(len(v))] = copy.deepcopy(r.choice(SCALARS + [v[0]] * 10))
                    elif v:
                        v.pop()
            elif op == 8:
                m.insert(r.randint(0, len(m)), ("typeDef " + r.choice(TYPENAMES + ["real", "sub", "anon map"]),
                                                copy.deepcopy(r.choice(ms + [1]))))
            elif op == 9:
                m.insert(r.randint(0, len(m)), (r.choice(["new", "p"]), Pairs([("type", r.choice(TYPENAMES + list("ab")))])))
        return d


def depth(d):
    if isinstance(d, Pairs):
        return 1 + max([depth(x) for kv in d for x in kv], default=0)
    if isinstance(d, (list, tuple)):
        return 1 + max([depth(x) for x in d], default=0)
    return 0


def sizes_ok(d):
    """no document whose initial value would not fit into memory"""
    if isinstance(d, Pairs):
        for k, v in d:
            if k in ("size", "initSize") and isinstance(v, int) and v > 1000:
                return False
            if k == "minSize" and isinstance(v, int) and v > 10**9:
                return False
            if not sizes_ok(v):
                return False
        # two sizes beyond the model's integers cannot be told apart
        big = [v for k, v in d if k in ("minSize", "maxSize") and isinstance(v, int) and abs(v) > 10**9]
        return len(big) < 2
    if isinstance(d, list):
        return all(sizes_ok(x) for x in d)
    return True
