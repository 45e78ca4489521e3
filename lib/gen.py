"""Random parameter-space models, their YAML text, conforming values and guesses."""
import json
import math

NAMES = ["a", "b", "c", "x", "y", "foo", "bar", "opt A", "k.1", "p-q", "Zed", "0", "1", "10", "null", "true", "typ",
         "valueType", "init", "size", "min", "scale", "values", "initPresent", "initSize", "maxSize", "optional"]
HOSTILE = ['q"uote', "ap'os", "back\\slash", "sp ace", "{brace}", "[b]", "com,ma", "co:lon: x", "#hash", "umläut", "emoji😀",
           "$HOME", "`tick`", "%d", "&amp", "*star", "a\tb", "new\nline", "", "~", "!tag", "日本", "typeDefoo", "init2", "- d",
           "key: value", "|", ">", "@at", "1.5", "yes", ".inf", "=", "<<x",
           ";", "a;b;c", "a/b", "../x", "x\\ny", "0x10", "1e3", "007", "opt|ion", "k" * 300, "null ", " x", "a,b;c\"d"]
TYPES = ["real", "int", "bool", "sub", "array", "anon", "variant", "enum", "optional", "const"]
LEAVES = ["real", "int", "bool", "enum", "const"]


class Gen:
    def __init__(self, rng, hostile=0.0, extreme=0.2, max_nodes=14, max_depth=5, floats_exact=False, ambiguous=True, deep=0.05):
        self.deep = deep
        self.r = rng
        self.hostile = hostile
        self.extreme = extreme
        self.max_nodes = max_nodes
        self.max_depth = max_depth
        self.left = max_nodes
        self.ambiguous = ambiguous
        self.exact = floats_exact

    # ---------------------------------------------------------------- numbers
    def real(self, lo=None, hi=None):
        r = self.r
        for _ in range(100):
            c = r.random()
            if c < 0.3:
                x = float(r.randint(-10, 10))
            elif c < 0.6:
                x = r.randint(-4096, 4096) / 64.0
            elif c < 0.9 or r.random() > self.extreme:
                x = (r.random() - 0.5) * 10 ** r.randint(-3, 4)
                if self.exact:
                    x = round(x * 1024) / 1024
            elif c < 0.95:
                x = (r.random() - 0.5) * 10.0 ** r.randint(-100, 100)
            else:
                x = r.choice([1e100, -1e100, 1e-100, 1e99, 5e-324, 0.0, 1e-300, -1e50, 2.0**60, -0.0])
            if (lo is None or x >= lo) and (hi is None or x <= hi):
                return x
        if lo is not None and hi is not None:
            return r.choice([lo, hi])
        return lo if lo is not None else hi

    def int_(self, lo=None, hi=None):
        r = self.r
        L = -(2**63) if lo is None else lo
        H = 2**63 - 1 if hi is None else hi
        c = r.random()
        if c < 0.75:
            x = r.randint(-20, 20)
        elif c < 0.95 or r.random() > self.extreme:
            x = r.randint(-100000, 100000)
        elif c < 0.98:
            x = r.getrandbits(r.randint(18, 63)) * r.choice([-1, 1])
        else:
            x = r.choice([L, H, -(2**63), 2**63 - 1, 2**53 + 1, -(2**53) - 1, 2**62])
        return min(H, max(L, x))

    def scale(self):
        r = self.r
        if r.random() < 0.8:
            return r.choice([0.1, 0.5, 1.0, 1.0, 2.0, 10.0, 100.0])
        return r.choice([1e100, 1e-100, 1e10, 1e-10, 5e-324, 3.0, 1e30])

    # ---------------------------------------------------------------- specs
    def name(self):
        if self.r.random() < self.hostile:
            return self.r.choice(HOSTILE)
        return self.r.choice(NAMES)

    def names(self, k, bad=("type",)):
        out = []
        while len(out) < k:
            n = self.name()
            if n in out or n in bad or n.startswith("typeDef "):
                n = n + str(self.r.randint(0, 999))
            if n not in out and n not in bad:
                out.append(n)
        return out

    def members(self, ns, depth):
        """a type per name, sometimes the same one for several names"""
        out = {}
        for n in ns:
            out[n] = self.r.choice(list(out.values())) if out and self.r.random() < 0.25 else self.node(depth + 1)
        return out

    def spec(self, root_kind=None):
        self.left = self.max_nodes
        if root_kind is None and self.r.random() < self.deep:
            return self.chain(self.r.choice([7, 9, 12, 16, 17, 20, 24]))
        return self.node(0, root_kind)

    def chain(self, depth):
        """one container inside the other, many levels deep"""
        r = self.r
        s = self.node(self.max_depth, r.choice(["bool", "int", "real", "enum"]))
        wide = 3 if depth < 12 else 1
        for _ in range(depth):
            k = r.choice(["sub", "sub", "optional", "variant", "anon", "array"])
            if k == "optional" and s[0] in ("optional", "const") and not self.ambiguous or k == "array" and wide == 0:
                k = "sub"
            if k == "sub":
                ns = self.names(r.randint(1, 2))
                s = ("sub", dict([(ns[0], s)] + [(n, ("bool", r.random() < 0.5)) for n in ns[1:]]))
            elif k == "optional":
                s = ("optional", s, r.random() < 0.8)
            elif k == "variant":
                ns = self.names(2, ("type", "init"))
                s = ("variant", {ns[0]: s, ns[1]: ("bool", True)}, ns[0] if r.random() < 0.8 else ns[1])
            elif k == "anon":
                s = ("anon", s, 1, r.choice([None, 1]), r.choice([2, 2, 3]))
            else:
                wide -= 1
                s = ("array", s, 2)
        return s

    def node(self, depth, kind=None):
        r = self.r
        self.left -= 1
        if kind is None:
            if depth >= self.max_depth or self.left <= 0 or r.random() < 0.25 and depth > 0:
                kind = r.choice(LEAVES)
            else:
                kind = r.choice(["sub", "sub", "array", "anon", "anon", "variant", "optional"] + LEAVES)
        if kind == "real":
            a = self.real() if r.random() < 0.5 else None
            b = self.real() if r.random() < 0.5 else None
            if a is not None and b is not None:
                if a > b:
                    a, b = b, a
                if a == b:
                    b = a + max(1.0, abs(a))
            return ("real", self.real(a, b), self.scale(), a, b)
        if kind == "int":
            a = self.int_() if r.random() < 0.5 else None
            b = self.int_() if r.random() < 0.5 else None
            if a is not None and b is not None:
                if a > b:
                    a, b = b, a
                if a == b:
                    a, b = (a - 1, b) if b == 2**63 - 1 else (a, b + 1)
            return ("int", self.int_(a, b), self.scale(), a, b)
        if kind == "bool":
            return ("bool", r.random() < 0.5)
        if kind == "enum":
            vs = self.names(r.randint(2, 4), ())
            init = r.choice(vs)
            if r.random() < 0.15:
                vs = vs + [vs[0]]
            return ("enum", vs, init)
        if kind == "const":
            return ("const",)
        if kind == "sub":
            return ("sub", self.members(self.names(r.randint(1, 3)), depth))
        if kind == "variant":
            ns = self.names(r.randint(2, 3), ("type", "init"))
            return ("variant", self.members(ns, depth), r.choice(ns))
        if kind == "array":
            c = self.node(depth + 1)
            return ("array", c, r.randint(4, 20) if c[0] in LEAVES and r.random() < 0.15 else r.randint(2, 3))
        if kind == "anon":
            mn = r.randint(0, 3) if r.random() < 0.6 else None
            mx = r.randint((mn or 0) + 1, (mn or 0) + 3) if r.random() < 0.6 else None
            init = r.randint(mn or 0, mx if mx is not None else (mn or 0) + 3)
            return ("anon", self.node(depth + 1), init, mn, mx)
        if kind == "optional":
            c = self.node(depth + 1)
            if not self.ambiguous and c[0] in ("optional", "const"):
                c = ("bool", True)
            return ("optional", c, r.random() < 0.5)
        raise ValueError(kind)

    # ---------------------------------------------------------------- values (JSON)
    def value(self, s, tweak=0.5, as_list=0.0):
        """a conforming value in JSON form"""
        r = self.r
        k = s[0]
        if k == "real":
            return s[1] if r.random() > tweak else float(self.real(s[3], s[4]))
        if k == "int":
            return s[1] if r.random() > tweak else self.int_(s[3], s[4])
        if k == "bool":
            return r.random() < 0.5
        if k == "enum":
            return r.choice(s[1])
        if k == "const":
            return None
        if k == "sub":
            return {n: self.value(c, tweak, as_list) for n, c in s[1].items()}
        if k == "array":
            return [self.value(s[1], tweak, as_list) for _ in range(s[2])]
        if k == "variant":
            n = r.choice(list(s[1]))
            return {n: self.value(s[1][n], tweak, as_list)}
        if k == "optional":
            return self.value(s[1], tweak, as_list) if r.random() < 0.6 else None
        if k == "anon":
            lo = s[3] or 0
            hi = s[4] if s[4] is not None else lo + 3
            n = r.choice([lo, hi, r.randint(lo, hi)])
            if r.random() < as_list:
                return [self.value(s[1], tweak, as_list) for _ in range(n)]
            keys = set()
            while len(keys) < n:
                keys.add(r.choice([r.randint(0, n + 2), r.randint(0, n + 2), r.randint(0, 10**6), 2**64 - 1, 2**63]))
            return {str(x): self.value(s[1], tweak, as_list) for x in keys}
        raise ValueError(k)


def awkward(r, k=14):
    """a space with many awkward names: as keys, as enumeration values, as options"""
    ns = [n for n in r.sample(HOSTILE, k) if n != "type"]
    sub = {n: r.choice([("bool", r.random() < 0.5), ("int", 0, 1.0, -5, 5), ("const",)]) for n in ns[:k // 2]}
    vs = ns[k // 2:]
    sub["e"] = ("enum", vs[:k // 4], vs[0])
    vs = [v for v in vs[k // 4:] if v != "init"] + ["other"]
    sub["v"] = ("variant", {v: ("bool", True) for v in vs}, vs[0])
    return ("sub", sub)


def init_json(s):
    k = s[0]
    if k in ("real", "int", "bool"):
        return s[1]
    if k == "enum":
        return s[2]
    if k == "const":
        return None
    if k == "sub":
        return {n: init_json(c) for n, c in s[1].items()}
    if k == "array":
        return [init_json(s[1]) for _ in range(s[2])]
    if k == "variant":
        return {s[2]: init_json(s[1][s[2]])}
    if k == "optional":
        return init_json(s[1]) if s[2] else None
    if k == "anon":
        return {str(i): init_json(s[1]) for i in range(s[2])}


# -------------------------------------------------------------------- YAML text
def doc(s):
    """spec model -> YAML document as (ordered) Python data"""
    k = s[0]
    if k in ("real", "int"):
        d = {"type": k, "init": s[1], "scale": s[2]}
        if s[3] is not None:
            d["min"] = s[3]
        if s[4] is not None:
            d["max"] = s[4]
        return d
    if k == "bool":
        return {"type": "bool", "init": s[1]}
    if k == "sub":
        d = {n: doc(c) for n, c in s[1].items()}
        return d if len(s[1]) % 2 else dict([("type", "sub")] + list(d.items()))
    if k == "array":
        return {"type": "array", "size": s[2], "valueType": doc(s[1])}
    if k == "anon":
        d = {"type": "anon map", "initSize": s[2], "valueType": doc(s[1])}
        if s[3] is not None:
            d["minSize"] = s[3]
        if s[4] is not None:
            d["maxSize"] = s[4]
        return d
    if k == "variant":
        d = {"type": "variant", "init": s[2]}
        d.update({n: doc(c) for n, c in s[1].items()})
        return d
    if k == "enum":
        return {"type": "enum", "init": s[2], "values": list(s[1])}
    if k == "optional":
        return {"type": "optional", "valueType": doc(s[1]), "initPresent": s[2]}
    if k == "const":
        return {"type": "const"}


class Pairs(list):
    """a mapping given as a list of (key, value), for documents a dict cannot express"""


def yaml_text(d):
    """flow-style YAML"""
    if isinstance(d, Pairs):
        return "{" + ", ".join(yaml_text(k) + ": " + yaml_text(v) for k, v in d) + "}"
    if isinstance(d, dict):
        return "{" + ", ".join(yaml_text(k) + ": " + yaml_text(v) for k, v in d.items()) + "}"
    if isinstance(d, list):
        return "[" + ", ".join(yaml_text(x) for x in d) + "]"
    if isinstance(d, bool):
        return "true" if d else "false"
    if d is None:
        return "null"
    if isinstance(d, float):
        if math.isnan(d):
            return ".nan"
        if math.isinf(d):
            return ".inf" if d > 0 else "-.inf"
        return repr(d)
    if isinstance(d, int):
        return str(d)
    return json.dumps(d, ensure_ascii=False)


def spec_yaml(s):
    return yaml_text(doc(s))


def kinds(s, acc=None):
    acc = set() if acc is None else acc
    acc.add(s[0])
    if s[0] in ("sub", "variant"):
        for c in s[1].values():
            kinds(c, acc)
    if s[0] in ("array", "anon", "optional"):
        kinds(s[1], acc)
    return acc
