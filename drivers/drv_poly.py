"""Statements over variables holding monomials and polynomials, carried out by
the real classes and recorded for PolyTrace.tla.  Modes: poly (random),
"file:<path>": programs generated from the specification."""
import gc
import json
import pickle
import sys
from fractions import Fraction

import roughpy as rp

import drv
from drv import rat
from rplib import read_mon, read_poly

NV = 3
LETTERS = ["x1", "x2", "y1", "x10", "a0", "Z3", "y", "x100000", "b7"]
ZERO = {"i": 0, "s": "0"}


def full(letter):
    return letter if len(letter) > 1 else letter + "0"


def st(op, d=0, x=ZERO, y=ZERO, n=0, l="", s="0", v=()):
    return {"op": op, "d": d, "x": x, "y": y, "n": n, "l": l, "s": s, "v": list(v)}


def V(i):
    return {"i": i, "s": "0"}


def S(c):
    return {"i": 0, "s": rat(c)}


class Gen:
    """keeps track of the types, to produce statements that make sense"""

    def __init__(self, rng):
        self.rng = rng
        self.letters = rng.sample(LETTERS, rng.randint(1, 5))
        self.ty = [None] * (NV + 1)
        self.cost = [1] * (NV + 1)
        self.ops = []

    def add(self, s, ty=None):
        self.ops.append(s)
        if ty:
            self.ty[s["d"]] = ty

    def num(self):
        r = self.rng
        return r.choice([Fraction(0), Fraction(1), Fraction(-1), Fraction(r.randint(-9, 9)), Fraction(r.randint(-9, 9), r.randint(1, 9)),
                         Fraction(r.randint(-40, 40), 8), Fraction(r.choice([-1, 1]) * 10 ** r.choice([18, 19, 25]) + r.randint(0, 5), 7)])

    def mon(self):
        r = self.rng
        return [[r.choice(self.letters), r.choice([1, 1, 1, 2, 3, 0] + ([-1] if r.random() < 0.03 else []))]
                for _ in range(r.choice([0, 1, 1, 1, 2, 3, 5]))]

    def fresh(self, d):
        if self.rng.random() < 0.6:
            v = self.mon()
            if any(p < 0 for _, p in v) and self.ty[d] is None:
                v = []
            neg = any(p < 0 for _, p in v)
            self.add(st("mon", d, v=v, n=self.rng.randrange(3)), None if neg else "M")
            if not neg:
                self.cost[d] = 1
        else:
            v = [[[f for f in self.mon() if f[1] > 0], rat(self.num())] for _ in range(self.rng.randint(0, 4))]
            seen, w = [], []
            for m, c in v:          # the keys of a dictionary
                k = {}
                for l, p in m:
                    k[full(l)] = k.get(full(l), 0) + p
                if k not in seen:
                    seen.append(k)
                    w.append([m, c])
            self.add(st("poly", d, v=w), "P")
            self.cost[d] = max(1, len(w))

    def kinds(self, t=None):
        return [i for i in range(1, NV + 1) if self.ty[i] and (t is None or self.ty[i] == t)]

    def step(self):
        r = self.rng
        d = r.randint(1, NV)
        if not self.kinds() or r.random() < 0.15:
            return self.fresh(d)
        a, b = r.choice(self.kinds()), r.choice(self.kinds())
        x, y = V(a), V(b)
        tx, ty_ = self.ty[a], self.ty[b]
        q = r.random()
        if q < 0.08:
            self.add(st("alias", d, x=x), tx)
            self.cost[d] = self.cost[a]
        elif q < 0.62:
            inp = r.random() < 0.55
            op = r.choice(["add", "sub", "mul", "mul", "div", "pow"])
            n = 0
            if op == "pow":
                n = r.choice([0, 1, 2, 2, 3]) if self.cost[a] < 5 else r.choice([0, 1, 2])
                if r.random() < 0.04:
                    n = -1
                y, ty_ = ZERO, None
            elif op == "div":
                c = self.num()
                if r.random() > 0.1:
                    y, ty_ = S(c), "S"
            elif r.random() < 0.3:
                if not inp and r.random() < 0.5:
                    x, tx = S(self.num()), "S"
                else:
                    y, ty_ = S(self.num()), "S"
            if tx != "S" and ty_ in ("M", "P") and self.cost[a] * self.cost[b] > 60 or op == "pow" and self.cost[a] ** n > 60:
                return self.fresh(d)
            # types: a statement that fails leaves them
            bad = op == "pow" and n < 0 or op == "div" and (ty_ != "S" or y["s"] == "0")
            if op == "pow":
                t, c = tx, self.cost[a] ** max(n, 1)
            elif op == "mul":
                t = "M" if tx == "M" and ty_ == "M" else "P"
                c = (self.cost[a] if tx != "S" else 1) * (self.cost[b] if ty_ in ("M", "P") else 1)
            else:
                t, c = "P", (self.cost[a] if tx != "S" else 1) + (self.cost[b] if ty_ in ("M", "P") else 1)
            if inp:
                d = a
                same = [i for i in self.kinds() if i != a]
                for i in same:          # aliases may change with it
                    self.cost[i] = max(self.cost[i], c)
                self.add(st("i" + op, a, x=x, y=y, n=n), None if bad else t)
            else:
                self.add(st(op, d, x=x, y=y, n=n), None if bad else t)
            if not bad:
                self.cost[d] = c
        elif q < 0.68 and self.kinds("M"):
            a = r.choice(self.kinds("M"))
            self.add(st("setm", a, x=V(a), l=r.choice(self.letters), n=r.choice([0, 1, 2, 5] + [-1] * (r.random() < 0.05))))
        elif q < 0.76 and self.kinds("M") and self.kinds("P"):
            a, b = r.choice(self.kinds("P")), r.choice(self.kinds("M"))
            self.add(st("setp", a, x=V(a), y=V(b), s=rat(self.num())))
            for i in self.kinds("P"):
                self.cost[i] += 1
        elif q < 0.79 and self.kinds("M"):
            self.add(st("polyof", d, x=V(r.choice(self.kinds("M"))), y=S(self.num())), "P")
            self.cost[d] = 1
        elif q < 0.83:
            op = r.choice(["pos", "neg"])
            self.add(st(op, d, x=x), "P")
            self.cost[d] = self.cost[a]
        elif q < 0.87 and self.kinds("M"):
            self.add(st("pickle", d, x=V(r.choice(self.kinds("M")))), "M")
            self.cost[d] = 1
        elif q < 0.91 and self.kinds("M"):
            self.add(st("getm", x=V(r.choice(self.kinds("M"))), l=r.choice(LETTERS)))
        elif q < 0.94 and self.kinds("M") and self.kinds("P"):
            self.add(st("getp", x=V(r.choice(self.kinds("P"))), y=V(r.choice(self.kinds("M")))))
        elif q < 0.96 and self.kinds("M"):
            self.add(st("cmp", x=V(r.choice(self.kinds("M"))), y=V(r.choice(self.kinds("M")))))
        else:
            t = r.choice("MP")
            if self.kinds(t) and r.random() < 0.4:
                self.add(st("eq", x=V(r.choice(self.kinds(t))), y=V(r.choice(self.kinds(t)))))
            else:
                self.add(st(r.choice(["len", "bool", "deg"]), x=x))


def programs(rng, n, mode):
    if mode.startswith("file:"):
        lines = open(mode[5:]).read().splitlines()
        return [json.loads(l) for l in lines[:n]]
    out = []
    for _ in range(n):
        g = Gen(rng)
        for _ in range(rng.randint(3, 14)):
            g.step()
        out.append({"ops": g.ops, "seed": rng.randrange(1 << 30)})
    return out


def scalar(s, k):
    """a Python number of one of the types that can hold it"""
    f = Fraction(s)
    if f.denominator == 1:
        forms = [int(f), f] + ([float(f)] if abs(f) < 2 ** 50 else [])
    elif f.denominator & (f.denominator - 1) == 0 and abs(f.numerator) < 2 ** 50:
        forms = [f, float(f)]
    else:
        forms = [f]
    return forms[k % len(forms)]


def build_mon(v, how):
    if how % 3 == 0 and len(set(l for l, _ in v)) == len(v):
        return rp.Monomial({l: p for l, p in v}) if v else rp.Monomial()
    if how % 3 == 1 and len(v) == 1:
        return rp.Monomial(v[0][0], v[0][1])
    if how % 3 == 1 and len(set(l for l, _ in v)) == len(v):
        return rp.Monomial(**{l: p for l, p in v})
    if how % 3 == 2 and v and all(p >= 0 for _, p in v):
        flat = [l for l, p in v for _ in range(p)]
        if flat:
            return rp.Monomial(flat[0]) if len(flat) == 1 else rp.Monomial(flat)
    return rp.Monomial([(l, p) for l, p in v])


BIN = {
    "add": lambda x, y, n: x + y, "sub": lambda x, y, n: x - y, "mul": lambda x, y, n: x * y,
    "div": lambda x, y, n: x / y, "pow": lambda x, y, n: x ** n,
}


def execute(desc, rec):
    env = [None] * (NV + 1)
    k = desc.get("seed", 0)
    rec.header()

    def look(j):
        v = env[j]
        if v is None:
            return {"k": "-", "is": 0, "m": [], "p": []}
        same = min(i for i in range(1, NV + 1) if env[i] is v)
        if isinstance(v, rp.Monomial):
            m = read_mon(str(v))
            if len(v) != len(m) or any(v[l] != p for l, p in m):
                raise drv.Unexpected("monomial %s: length %d" % (m, len(v)))
            return {"k": "M", "is": same, "m": m, "p": []}
        return {"k": "P", "is": same, "m": [], "p": read_poly(str(v))}

    def val(o):
        nonlocal k
        k = (k * 1103515245 + 12345) & 0x7fffffff
        return env[o["i"]] if o["i"] > 0 else scalar(o["s"], k >> 8)

    for s in desc["ops"]:
        rec.begin(s)
        op, d, res, c = s["op"], s["d"], "", {}
        x, y = val(s["x"]), val(s["y"])
        try:
            if op == "mon":
                env[d] = build_mon(s["v"], s["n"])
            elif op == "poly":
                env[d] = rp.PolynomialScalar({build_mon(m, k >> 4): scalar(q, k >> 5) for m, q in s["v"]})
            elif op == "polyof":
                env[d] = rp.PolynomialScalar(x, y)
            elif op == "alias":
                env[d] = x
            elif op == "pos":
                env[d] = +x
            elif op == "neg":
                env[d] = -x
            elif op == "pickle":
                env[d] = pickle.loads(pickle.dumps(x))
            elif op in BIN:
                env[d] = BIN[op](x, y, s["n"])
            elif op == "iadd":
                x += y
                env[d] = x
            elif op == "isub":
                x -= y
                env[d] = x
            elif op == "imul":
                x *= y
                env[d] = x
            elif op == "idiv":
                x /= y
                env[d] = x
            elif op == "ipow":
                x **= s["n"]
                env[d] = x
            elif op == "setm":
                x[s["l"]] = s["n"]
            elif op == "setp":
                x[y] = scalar(s["s"], k >> 3)
            elif op == "getm":
                res = str(x[s["l"]])
            elif op == "getp":
                res = rat(Fraction(str(x[y])))
            elif op == "len":
                res = str(len(x))
            elif op == "bool":
                res = "yes" if x else "no"
            elif op == "deg":
                res = str(x.degree())
            elif op == "eq":
                res = "yes" if x == y else "no"
                if (x != y) == (x == y):
                    raise drv.Unexpected("== and != agree")
            elif op == "cmp":
                c = {"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y,
                     "hash": hash(x) == hash(y)}
            else:
                raise ValueError(op)
        except (TypeError, ValueError, ArithmeticError) as e:
            if isinstance(e, drv.Unexpected):
                raise
            res = "ERR"
        x = y = None
        gc.collect(0)
        l = s["l"]
        e = {"op": "st", "st": dict(s, l=full(l) if l else "", v=norm(s["v"])), "res": res, "c": c,
             "obs": [look(j) for j in range(1, NV + 1)]}
        rec.event(e)


def norm(v):
    """letters in full (y is y0)"""
    out = []
    for a, b in v:
        out.append([full(a), b] if isinstance(a, str) else [norm(a), b])
    return out


if __name__ == "__main__":
    drv.main(sys.modules["__main__"])
