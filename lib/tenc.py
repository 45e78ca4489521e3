"""Encoding of numbers, strings, JSON, spec models for the TLA+ modules (same scheme as harness/src/enc.rs)."""
import struct


def limbs(o):
    return [o >> 42, (o >> 21) & 0x1FFFFF, o & 0x1FFFFF]


def unlimbs(l):
    return (l[0] << 42) | (l[1] << 21) | l[2]


def flimbs(x):
    b = struct.unpack("<Q", struct.pack("<d", float(x)))[0]
    return limbs((~b) & (2**64 - 1) if b >> 63 else b | (1 << 63))


def funlimbs(l):
    o = unlimbs(l)
    b = o & (2**63 - 1) if o >> 63 else (~o) & (2**64 - 1)
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def ilimbs(i):
    return limbs((i & (2**64 - 1)) ^ (1 << 63))


def esc(s):
    return "".join(c if " " <= c <= "}" else "~%x~" % ord(c) for c in s)


def _opt(x, f):
    return [] if x is None else [f(x)]


def spec_enc(s):
    k = s[0]
    if k == "real":
        return ["real", flimbs(s[1]), flimbs(s[2]), _opt(s[3], flimbs), _opt(s[4], flimbs)]
    if k == "int":
        return ["int", ilimbs(s[1]), flimbs(s[2]), _opt(s[3], ilimbs), _opt(s[4], ilimbs)]
    if k == "bool":
        return ["bool", s[1]]
    if k == "sub":
        return ["sub", {esc(n): spec_enc(c) for n, c in s[1].items()}]
    if k == "array":
        return ["array", spec_enc(s[1]), s[2]]
    if k == "anon":
        return ["anon", spec_enc(s[1]), s[2], _opt(s[3], lambda x: x), _opt(s[4], lambda x: x)]
    if k == "variant":
        return ["variant", {esc(n): spec_enc(c) for n, c in s[1].items()}, esc(s[2])]
    if k == "enum":
        return ["enum", [esc(v) for v in s[1]], esc(s[2])]
    if k == "optional":
        return ["optional", spec_enc(s[1]), s[2]]
    if k == "const":
        return ["const"]
    raise ValueError(k)


def jenc(j):
    """JSON document -> model JSON (numbers as serde_json reads them)"""
    if j is None:
        return ["z"]
    if isinstance(j, bool):
        return ["b", j]
    if isinstance(j, int):
        if -(2**63) <= j < 2**63:
            return ["i", ilimbs(j), flimbs(j)]
        if 0 <= j < 2**64:
            return ["u", flimbs(j)]
        return ["f", flimbs(float(j))]
    if isinstance(j, float):
        return ["f", flimbs(j)]
    if isinstance(j, str):
        return ["s", esc(j)]
    if isinstance(j, list):
        return ["a", [jenc(x) for x in j]]
    if isinstance(j, dict):
        return ["o", {esc(k): jenc(v) for k, v in j.items()}]
    raise ValueError(type(j))


def unesc(s):
    import re
    return re.sub(r"~([0-9a-f]+)~", lambda m: chr(int(m.group(1), 16)), s)
