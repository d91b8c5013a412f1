"""Variant: random scripts of operations on a few variants, executed on the real class (with address and undefined-behaviour
sanitizers); everything it reports is validated by TLC against Variant.tla. The laws of equality and order are checked
exhaustively on the specification (VariantMC)."""
import json, random
from fractions import Fraction
import lib, runs

SPEC = "VarTrace"
PRESETS = {"C21": [dict(), dict(nums=0.9), dict(nums=0.95, fine=True), dict(custom=0.4), dict(nest=0.6, nums=0.2), dict(maps=0.7), dict(text=0.8)]}
COUNT = dict(quick=1000, thorough=12000)
BATCH = 250
ASSUME = "4 variants per run, up to 30 operations; numbers with at most 32 binary places; NaN is not generated"
TYPES = dict(i1="BYTE_1", i2="BYTE_2", i4="BYTE_4", i8="BYTE_8", u1="UBYTE_1", u2="UBYTE_2", u4="UBYTE_4", u8="UBYTE_8", d="DOUBLE", B="BOOL", s="STRING", y="BYTEARRAY", L="LIST", V="VECTOR",
             M="MAP", P="PAIR", C="CUSTOM", U="UNKNOWN")
K = 4
TEXTS = ["", "abc", "true", "True", "false", "0", "00", "-17", "+5", "12abc", "3.75", "-0.5", "0.0", "99999999999999999999", " 7", "1e3", "a\xff", "a\x00b", "a", "x y", "9007199254740993", ".5", "-", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616"]


# --------------------------------------------------------------------------------------------------------- values
def limits(t):
    w = 8 * int(t[1])
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t[0] == "i" else (0, (1 << w) - 1)


NUMS = [0, 1, 2, 3, 7, 42, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 53) + 2,
        (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 2048, (1 << 64) - 1]


def fits_double(x):
    return Fraction(float(x)) == x


def number(r, f):
    x = Fraction(r.choice(NUMS + NUMS[:6] * 3)) * r.choice([1, 1, -1])
    if r.random() < 0.15:
        x += r.choice([-1, 1])
    ts = [t for t in ("i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8") if limits(t)[0] <= x <= limits(t)[1]]
    if r.random() < 0.35 or not ts:
        w = r.random()
        if w < 0.05:
            return ("d", r.choice(["inf", "-inf"]))
        if w < 0.5 and abs(x) < 1 << 20:
            x += Fraction(r.randint(-200, 200), 64)
        if f.get("fine") and abs(x) < 1 << 16 and w > 0.2:
            x += r.choice([-1, 1]) * Fraction(1, 1 << r.choice([32, 30, 28, 27, 26, 25, 24]))
        return ("d", Fraction(float(x)))
    return (r.choice(ts), int(x))


def text(r):
    return r.choice(TEXTS).encode("latin1")


def value(r, f, depth=0):
    w = r.random()
    nest = f.get("nest", 0.25) / (1 + depth)
    if w < nest and depth < 3:
        k = r.choice("LVP" + ("" if f.get("fine") or f.get("custom") else "MM"))
        if f.get("maps") and depth == 0 and r.random() < f["maps"]:
            k = "M"
        if k == "P":
            return ("P", [value(r, f, depth + 1), value(r, f, depth + 1)])
        n = r.choice([0, 1, 1, 2, 3])
        if k == "M" and r.random() < 0.3:
            return ("M", [(("i4", r.randint(-3, 3)), ("s", text(r))) for _ in range(n)] if r.random() < 0.5 else [(("s", text(r)), ("B", r.randint(0, 1))) for _ in range(n)])
        if k == "M":
            return ("M", [(value(r, f, depth + 1), value(r, f, depth + 1)) for _ in range(n + r.randint(0, 1))])
        if r.random() < 0.3:
            t = r.choice(["i4", "s"])
            return (k, [("i4", r.randint(-3, 3)) if t == "i4" else ("s", text(r)) for _ in range(n)])
        return (k, [value(r, f, depth + 1) for _ in range(n)])
    if r.random() < f.get("custom", 0.04):
        return ("C", "A" if not f.get("custom") else r.choice("AB"), text(r), r.randint(0, 9))
    if r.random() < f.get("nums", 0.45):
        return number(r, f)
    return r.choice([lambda: ("s", text(r)), lambda: ("s", text(r)), lambda: ("y", text(r)), lambda: ("B", r.randint(0, 1)), lambda: number(r, f),
                     lambda: ("U",) if depth == 0 or not f.get("custom") else ("B", 1)])()


def hx(b):
    return "." + b.hex()


def write(v):
    t = v[0]
    if t == "U":
        return "U"
    if t == "d":
        return "d " + (v[1] if isinstance(v[1], str) else float(v[1]).hex())
    if t in ("s", "y"):
        return t + " " + hx(v[1])
    if t == "P":
        return "P %s %s" % (write(v[1][0]), write(v[1][1]))
    if t in ("L", "V"):
        return " ".join([t, str(len(v[1]))] + [write(x) for x in v[1]])
    if t == "M":
        return " ".join(["M", str(len(v[1]))] + [write(x) for e in v[1] for x in e])
    if t == "C":
        return "C %s %s %d" % (v[1], hx(v[2]), v[3])
    return "%s %d" % (t, v[1])


def mag(x):
    """-> (neg, digits); x: Fraction, int, or text for infinity"""
    if x in ("inf", "-inf", "nan", "-nan"):
        return x[0] == "-", [1] + [0] * 12
    n = int(abs(x) * (1 << 32))
    if n >= 1 << 96:
        return x < 0, [1] + [0] * 12
    return x < 0, [0] + [(n >> (8 * k)) & 255 for k in range(11, -1, -1)]


def num(t, x):
    n, m = mag(x)
    return dict(t=t, neg=n, mag=m)


def parse_double(w):
    return w if w in ("inf", "-inf", "nan", "-nan") else Fraction(float.fromhex(w))


def data(v):
    """Python value -> value of Variant.tla"""
    t, T = v[0], TYPES[v[0]]
    if t == "U":
        return dict(t=T)
    if t == "B":
        return dict(t=T, b=bool(v[1]))
    if t in ("s", "y"):
        return dict(t=T, s=list(v[1]))
    if t in ("L", "V", "P"):
        return dict(t=T, e=[data(x) for x in v[1]])
    if t == "M":
        return dict(t=T, e=[[data(x), data(y)] for x, y in v[1]])
    if t == "C":
        return dict(t=T, c=v[1], s=list(v[2]), p=v[3])
    return num(T, v[1])


def read(w):
    """words of a dump -> Python value"""
    t = w.pop(0)
    if t == "U" or t not in TYPES:
        return (t,)
    if t == "d":
        return (t, parse_double(w.pop(0)))
    if t in ("s", "y"):
        return (t, bytes.fromhex(w.pop(0)[1:]))
    if t == "P":
        return (t, [read(w), read(w)])
    if t in ("L", "V"):
        return (t, [read(w) for _ in range(int(w.pop(0)))])
    if t == "M":
        return (t, [(read(w), read(w)) for _ in range(int(w.pop(0)))])
    if t == "C":
        return (t, w.pop(0), bytes.fromhex(w.pop(0)[1:]), int(w.pop(0)))
    return (t, int(w.pop(0)))


# -------------------------------------------------------------------------------------------------------- scripts
def gen(r, f):
    pool = [value(r, f) for _ in range(6)]
    ops, grown = [], 0
    S = lambda: r.randint(1, K)
    for _ in range(r.randint(10, 30)):
        w = r.random()
        if w < 0.22:
            v = r.choice(pool) if r.random() < 0.7 else value(r, f)
            ops.append(dict(op="set", i=S(), how=r.randint(0, 5), v=v))
        elif w < 0.30:
            ops.append(dict(op="copy", i=S(), j=S(), how=r.randint(0, 2)))
        elif w < 0.36:
            ops.append(dict(op="move", i=S(), j=S(), how=r.randint(0, 1)))
        elif w < 0.38:
            ops.append(dict(op="clear", i=S(), how=r.randint(0, 1)))
        elif w < 0.50 and grown < 5:
            grown += 1
            k = r.choice(["LIST", "VECTOR", "PAIR"] + ([] if f.get("fine") or f.get("custom") else ["MAP", "MAP"]))
            n = 2 if k == "PAIR" else r.choice([2, 4]) if k == "MAP" else r.randint(0, 3)
            ops.append(dict(op="nest", i=S(), kind=k, js=[S() for _ in range(n)]))
        elif w < 0.60 and grown < 5:
            grown += 1
            ops.append(dict(op=r.choice(["push", "push", "into"]), i=S(), j=S(), k=S(), n=r.randint(1, 3)))
        elif w < 0.65:
            ops.append(dict(op="part", i=S(), n=r.randint(1, 3), how=r.randint(0, 1)))
        elif w < 0.68:
            ops.append(dict(op="self", i=S(), how=r.randint(0, 1)))
        elif w < 0.86:
            ops.append(dict(op="cmp", i=S(), j=S()))
        elif w < 0.95:
            ops.append(dict(op="conv", i=S()))
        elif not (f.get("fine") or f.get("custom")):
            ops.append(dict(op="find", i=S(), j=S()))
    return ops


def line(o):
    k = o["op"]
    if k == "set":
        return "set %d %d %s" % (o["i"], o["how"], write(o["v"]))
    if k == "nest":
        return " ".join(["nest", str(o["i"]), o["kind"], str(len(o["js"]))] + [str(j) for j in o["js"]])
    keys = dict(copy="ij*", move="ij*", clear="i*", push="ijk", part="in*", into="inj", self="i*", cmp="ij", conv="i", find="ij")[k]
    return " ".join([k] + [str(o["how" if x == "*" else x]) for x in keys])


def encode(rid, ops):
    return "RUN %d %d %d\n" % (rid, K, len(ops)) + "".join(line(o) + "\n" for o in ops)


def parse(out):
    """-> {id: dict(end, res: [..], slots: [[..]], leaked, obs)}"""
    res, cur = {}, None
    for l in out.split("\n"):
        w = l.split()
        if not w:
            continue
        if w[0] == "RUN":
            cur = res[int(w[1])] = dict(end=None, res=[], slots=[], leaked=-1, obs={})
        elif w[0] == "T":
            cur["res"].append(w[2:])
            cur["slots"].append([])
        elif w[0] == "S":
            try:
                cur["slots"][-1].append(data(read(w[1:])))
            except (ValueError, IndexError, KeyError):
                cur["slots"][-1].append(dict(t="?"))
            cur["obs"].setdefault(len(cur["slots"]), []).append(dict(k=w[1], s=l))
        elif w[0] == "LIVE":
            cur["leaked"] = int(w[1])
        elif w[0] == "END":
            cur["end"] = int(w[1])
    return res


def result(op, w):
    if op == "cmp":
        return [int(x) for x in w[0]]
    if op == "find":
        return [int(w[0])]
    if op != "conv":
        return []
    part = lambda x: dict(zip(("neg", "mag"), mag(x)))
    text = lambda x: list(bytes.fromhex(x[1:]))
    n = 3 + int(w[2])
    return dict(kinds=[int(x) for x in w[0]], access=[int(x) for x in w[1]], parts=[text(x) for x in w[3:n]], int=part(Fraction(int(w[n]))), uint=part(Fraction(int(w[n + 1]))),
                double=part(parse_double(w[n + 2])), bool=w[n + 3] == "1", text=text(w[n + 4]), bytes=text(w[n + 5]))


def to_tla(rid, ops, res):
    out = []
    for n, o in enumerate(ops):
        x = dict(op=o["op"], i=o["i"])
        for k in ("j", "k", "n", "kind", "js"):
            if k in o:
                x[k] = o[k]
        if o["op"] == "set":
            x["v"] = data(o["v"])
        x["res"], x["slots"] = result(o["op"], res["res"][n]), res["slots"][n]
        out.append(x)
    return dict(id=rid, k=K, leaked=res["leaked"], ops=out)


def refresh(run, res):
    return dict(run, leaked=res["leaked"], ops=[dict(o, res=result(o["op"], res["res"][n]), slots=res["slots"][n]) for n, o in enumerate(run["ops"])])


HARNESS = ["var_run.cpp"]
BUILD = dict(flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], cxx="g++")


def extra(c, prop, tier):
    x = lib.tlc("VariantMC", work=c.dir, heap="6g")
    if not x["ok"]:
        raise lib.CheckError("the specification violates %s:\n%s" % (x["violated"], x["out"][-6000:]))
    c.cov["mc_states"], c.cov["mc_transitions"] = x["distinct"], x["states"]
