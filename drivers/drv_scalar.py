"""Programs on scalars and scalar arrays, carried out by the C++ classes (by
drivers/cxx/scldrv, path in SCLDRV) and recorded for ScalarTrace.tla.
Modes: ring, ref, conv, ser."""
import json
import os
import subprocess
import sys
from fractions import Fraction

import drv
from drv import rat

SIGNED = ["i1", "i2", "i4", "i8"]
INTS = SIGNED + ["u1", "u2", "u4", "u8"]
FLOATS = ["h", "b", "f", "d"]
TYPES = INTS + FLOATS + ["Q", "P"]
NR, NA = 5, 3
PREC = {"h": 11, "b": 8, "f": 24, "d": 53}


def read_value(v):
    """the polynomial (as in traces) of a printed value, None if infinite"""
    from rplib import read_poly
    if v == "inf":
        return None
    if v.startswith("{"):
        return read_poly(v)
    if "p" in v:
        m, e = v.split("p")
        f = Fraction(int(m[:-1] if m.endswith("d") else m)) * Fraction(2) ** int(e)
    else:
        f = Fraction(v)
    return [[[], rat(f)]] if f else []


class Gen:
    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode
        r = rng
        n = r.choice([1, 2, 3, 10])
        self.types = r.sample(TYPES, n) if mode != "ring" or r.random() < 0.5 else r.sample(["f", "d", "Q", "P"], min(n, 4))

    def num(self, t):
        r = self.rng
        x = r.random()
        if t in INTS:
            x = Fraction(r.choice([0, 1, -1, 2, -3, r.randint(-11, 11), r.randint(-100, 100)]))
            return x if t in SIGNED else abs(x) * r.choice([1, 1, 2])
        if t in FLOATS:
            x = Fraction(r.randint(-60, 60), r.choice([1, 2, 4, 8]))
            if r.random() < 0.1:
                x = Fraction(r.choice([-1, 1]) * r.choice([1, 3]), 2) * Fraction(2) ** r.randint(-6, 6)
            if r.random() < 0.1 and t in "fd":
                x = Fraction(r.randint(-2 ** PREC[t], 2 ** PREC[t])) * Fraction(2) ** r.randint(-20, 20)
            if r.random() < 0.12:
                x = Fraction(0)
            return x
        if x < 0.12:
            return Fraction(0)
        if x < 0.2:
            return Fraction(r.choice([-1, 1]) * r.choice([10 ** 20 + 39, 2 ** 64, 2 ** 63, 2 ** 31]), r.choice([1, 3, 10 ** 19]))
        return Fraction(r.randint(-60, 60), r.choice([1, 1, 2, 3, 7, 8]))

    def make(self, d):
        r = self.rng
        t = r.choice(self.types)
        forms = ["own", "own", "info"] if t in INTS else ["own", "own", "double", "int", "rat", "q", "zero", "info"]
        if t == "P":
            forms += ["poly"] * 3
        f = r.choice(forms)
        if self.mode != "conv" and r.random() < 0.03:
            f = "null"
        o = {"op": "mk", "d": d, "t": t, "f": f, "v": []}
        if f == "null":
            o["t"] = "0"
        elif f in ("own", "poly") and t == "P":
            o["v"] = self.poly()
        elif f in ("own", "q", "rat", "double", "int"):
            u = {"double": "d", "int": "i1", "rat": "f"}.get(f, t)
            x = self.num(u if t not in FLOATS or f == "own" else t)
            if f == "int":
                x = Fraction(int(x) % 2 ** 53)
            if f == "rat":
                x = Fraction(r.randint(-60, 60), r.choice([1, 2, 4, 8] if t in FLOATS else [1, 2, 3, 7]))
            if f == "q" and t in FLOATS and r.random() < 0.3:
                x = Fraction(r.randint(-60, 60), r.choice([3, 7, 10]))
            o["v"] = [[[], rat(x)]] if x else []
        return o

    def array(self, d):
        r = self.rng
        t, k = r.choice(self.types), r.choice([1, 2, 3, 7])
        if t not in INTS and r.random() < 0.2:
            return {"op": "anew", "d": d, "t": t, "k": k}
        return {"op": "adata", "d": d, "t": t, "k": k,
                "v": [self.poly() if t == "P" else [[[], rat(x)]] if (x := self.num(t)) else [] for _ in range(k)]}

    def poly(self):
        r = self.rng
        p = {}
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            m = tuple(sorted({l: r.randint(1, 2) for l in r.sample(["x1", "x2", "y1"], r.randint(0, 2))}.items()))
            p[m] = self.num("Q")
        return [[[list(x) for x in m], rat(c)] for m, c in p.items() if c]

    def program(self):
        r = self.rng
        ops = [self.make(k) for k in range(NR)]
        if self.mode in ("ref", "ser"):
            for k in range(NA):
                ops.append(self.array(k))
        w = {"ring": ["add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv", "neg", "eq", "eq", "iszero", "mk", "copy",
                      "add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv"],
             "conv": ["mk", "mk", "assign", "massign", "put", "cast", "cast", "copy", "eq", "eq", "iszero", "iadd"],
             "ref": ["aget", "aget", "aconv", "aconv", "aconv", "mk", "iadd", "mul", "adata", "adata"],
             "ser": ["ser", "ser", "aser", "mk", "adata", "aget", "eq", "iadd", "assign"]}[self.mode]
        for _ in range(r.randint(4, 16)):
            op = r.choice(w)
            a, b, d = (r.randrange(NR) for _ in range(3))
            o = {"op": op, "d": d, "a": a, "b": b, "t": r.choice(TYPES), "k": r.randrange(7),
                 "f": r.choice(["json", "bin"])}
            if op == "mk":
                o = self.make(d)
            elif op == "put":
                o["f"] = r.choice(["double", "int", "q"])
                x = self.num({"double": "d", "int": "i1", "q": "Q"}[o["f"]])
                o["v"] = [[[], rat(x)]] if x else []
            elif op in ("aput", "aadd", "asub", "amul", "adiv", "afill"):
                o["d"] = r.randrange(NA)
            elif op == "aget":
                o["a"] = r.randrange(NA)
            elif op == "adata":
                o = self.array(r.randrange(NA))
            elif op in ("acopy", "aassign", "aconv", "aser"):
                o["d"], o["a"] = r.randrange(NA), r.randrange(NA)
            ops.append(o)
        return {"ops": ops}


def programs(rng, n, mode):
    return [Gen(rng, mode).program() for _ in range(n)]


def text(o):
    """a value as the C++ driver reads it"""
    v, f, t = o["v"], o["f"], o.get("t")
    return one(v, f, t)


def one(v, f, t):
    if t == "P" and f in ("own", "poly"):
        return "%d %s" % (len(v), " ".join("%s %d %s" % (c, len(m), " ".join("%s %d" % (l, e) for l, e in m)) for m, c in v))
    x = Fraction(v[0][1]) if v else Fraction(0)
    if f == "double" or f == "own" and t != "Q":
        return str(x) if t in INTS and f == "own" else repr(float(x))
    if f == "int":
        return str(int(x))
    if f == "rat":
        return "%d %d" % (x.numerator, x.denominator)
    if f in ("q", "own"):
        return rat(x)
    return ""


def execute(desc, rec):
    p = subprocess.Popen([os.environ["SCLDRV"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)

    log = open(os.environ["SCLLOG"] + ".%d" % rec.idx, "w") if "SCLLOG" in os.environ else None

    def ask(*a):
        if log:
            log.write(" ".join(map(str, a)) + "\n")
            log.flush()
        p.stdin.write(" ".join(map(str, a)) + "\n")
        p.stdin.flush()
        x = p.stdout.readline()
        if not x:
            raise RuntimeError("scldrv ended: %s" % p.wait())
        return json.loads(x)

    rec.header(nr=NR, na=NA)
    ty = ["0"] * NR
    val = [[]] * NR
    aty, avs = ["0"] * NA, [[]] * NA

    def const(v):
        return all(not m for m, _ in v)

    def fine(s):
        # values the real types cannot hold end the program
        return s["v"] is not None

    for o in desc["ops"]:
        op, d, a, b = o["op"], o["d"], o.get("a", 0), o.get("b", 0)
        # questions without a specified answer are not asked
        div = op in ("div", "idiv", "adiv")
        if div:
            x, y = (ty[a], b) if op == "div" else (ty[d], a) if op == "idiv" else (aty[d], a)
            if x in INTS and (ty[y] in INTS or op == "adiv") or x == "0" or ty[y] == "0":
                continue
        if op in ("assign", "massign", "iadd", "isub", "imul", "idiv", "put") and not const(val[a]) and (
                op == "put" or op in ("assign", "massign") and ty[d] != "P"):
            continue
        if op == "put" and ty[d] == "0":
            continue
        if op.startswith("a") and op[1:] in ("put", "add", "sub", "mul", "div", "fill"):
            # converted to the type of the array
            if aty[d] != "P" and not const(val[a]):
                continue
            if aty[d] == "0" or not avs[d] or op == "afill" and ty[a] == "0":
                continue
            o["k"] %= len(avs[d])
        if op == "aget":
            if not avs[a]:
                continue
            o["k"] %= len(avs[a])
        if op == "aconv":
            if aty[d] not in FLOATS + ["Q", "P"] or aty[a] == "0" or len(avs[d]) < len(avs[a]) or \
                    aty[d] != "P" and not all(const(x["v"]) for x in avs[a]):
                continue
        if op == "cast" and o["t"] != "P" and not const(val[a]):
            continue
        if op == "ser" and ty[a] == "0" or op == "aser" and aty[a] in ["0"] + INTS:
            continue
        rec.begin(o)
        e = {"op": op, "d": d + 1, "a": a + 1, "b": b + 1, "t": o.get("t", ""), "k": o.get("k", 0) + 1, "f": o.get("f", ""),
             "v": o.get("v", []) if op != "adata" else [], "w": o["v"] if op == "adata" else [], "exc": "", "res": [], "obs": {"t": "0", "v": []}, "arr": {"t": "0", "v": []}}
        if op == "mk":
            r = ask(op, d, "d" if o["f"] == "null" else o["t"], o["f"], text(o))
        elif op == "put":
            r = ask(op, d, o["f"], text(o))
        elif op in ("copy", "assign", "massign", "neg", "iadd", "isub", "imul", "idiv", "acopy", "aassign", "aconv", "afill"):
            r = ask(op, d, a)
        elif op in ("add", "sub", "mul", "div"):
            r = ask(op, d, a, b)
        elif op == "eq":
            r = ask(op, a, b)
        elif op == "iszero":
            r = ask(op, a)
        elif op == "cast":
            r = ask(op, a, o["t"])
        elif op in ("ser", "aser"):
            r = ask(op, d, a, o["f"])
        elif op == "anew":
            r = ask(op, d, o["t"], o["k"])
        elif op == "adata":
            r = ask(op, d, o["t"], o["k"], *(one(x, "own", o["t"]) for x in o["v"]))
        elif op == "aget":
            r = ask(op, d, a, o["k"])
        else:
            r = ask(op, d, o["k"], a)
        if isinstance(r, dict) and "exc" in r:
            e["exc"] = r["exc"]
            if op in ("eq", "iszero", "cast"):
                pass
            else:
                # what is left of the target
                if op[0] == "a" and op not in ("add", "assign", "aget"):
                    r = ask("ashow", d) if aty[d] != "0" or op == "anew" else {"t": "0", "v": []}
                else:
                    r = ask("show", d)
        stop = False
        if op in ("eq",):
            e["res"] = r if not e["exc"] else []
        elif op == "iszero":
            e["res"] = [r] if not e["exc"] else []
        elif op == "cast":
            if not e["exc"]:
                v = read_value(r)
                e["obs"] = {"t": o["t"], "v": v or []}
                e["res"] = [v is None]
        elif op[0] == "a" and op not in ("add", "assign", "aget"):
            r = {"t": r["t"], "v": [dict(s, v=read_value(s["v"])) for s in r["v"]]}
            stop = not all(fine(s) for s in r["v"])
            e["arr"] = {"t": r["t"], "v": [s["v"] or [] for s in r["v"]]}
            aty[d], avs[d] = r["t"], r["v"]
        else:
            r = {"t": r["t"], "v": read_value(r["v"])}
            stop = not fine(r)
            e["obs"] = {"t": r["t"], "v": r["v"] or []}
            ty[d], val[d] = r["t"], r["v"] or []
        if stop:
            e["res"] = [True]
        # nothing else changed
        e["all"] = []
        rec.event(e)
        if stop:
            break
        big = [x for x in val if any(len(c) > 60 for _, c in x) or len(x) > 8]
        if big or any(len(x["v"]) > 8 or any(len(c) > 60 for _, c in x["v"]) for y in avs for x in y):
            break
    # the registers and arrays at the end
    rec.begin({"op": "final"})
    fin = {"op": "final", "d": 1, "a": 1, "b": 1, "t": "", "k": 1, "f": "", "v": [], "exc": "", "res": [],
           "obs": {"t": "0", "v": []}, "arr": {"t": "0", "v": []}, "all": []}
    if not stop:
        for k in range(NR):
            s = ask("show", k)
            fin["all"].append({"t": s["t"], "v": read_value(s["v"]) or []})
        for k in range(NA):
            if aty[k] != "0":
                s = ask("ashow", k)
                fin["all"].append({"t": s["t"], "v": [read_value(x["v"]) or [] for x in s["v"]]})
        rec.event(fin)
    p.stdin.close()
    if p.wait():
        raise RuntimeError("scldrv ended: %s" % p.returncode)


if __name__ == "__main__":
    drv.main(sys.modules[__name__])
