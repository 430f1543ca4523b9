"""Random programs over dyadic numbers, intervals, partitions, dissection and
segmentation; executed on the C++ classes (mode cxx/...) by drivers/cxx/ivdrv
(path in IVDRV) or on the Python classes (mode py/..., or pk/...: with every
value reloaded from its pickled form), for IntervalTrace.tla.
Mode suffix: dyadic, cells, pred, dissect, partition, segment."""
import json
import os
import pickle
import subprocess
import sys
from fractions import Fraction

import drv
from drv import rat


# ---------------------------------------------------------------- generation
GRID = [False]     # only points of dyadic grids (exact midpoints and lengths)


def rand_x(rng):
    """a double: on small grids, on fine grids, or arbitrary"""
    r = rng.random() * (0.6 if GRID[0] else 1)
    if r < 0.45:
        return rng.randint(-24, 24) / 2.0 ** rng.randint(0, 4)
    if r < 0.6:
        return float(rng.randint(-8, 8))
    if r < 0.8:
        return round(rng.uniform(-8, 8), 1)
    if r < 0.9:
        return rng.uniform(-4, 4)
    return rng.choice([-1, 1]) * (rng.randint(0, 4) + rng.choice([2.0 ** -20, 2.0 ** -30, 1 - 2.0 ** -20, 0.0]))


def rand_iv(rng, cxx):
    while True:
        a, b = rand_x(rng), rand_x(rng)
        if a > b:
            a, b = b, a
        if rng.random() < 0.15:
            b = a + 2.0 ** -rng.randint(1, 6)
        if a < b:
            return a, b, (rng.randint(0, 1) if cxx else 0)


class Gen:
    def __init__(self, rng, cxx):
        self.rng, self.cxx, self.kinds, self.ops = rng, cxx, [], []

    def emit(self, op, a=(), x=None, kind=None, inplace=False):
        r = 0
        if kind:
            self.kinds.append(kind)
            r = len(self.kinds)
        elif inplace:
            r = a[0]
        self.ops.append([op, list(a), x, r])
        return r

    def new(self, k, o=None):
        rng = self.rng
        if k == "D":
            n = rng.randint(-3, 9)
            kk = rng.choice([0, rng.randint(-9, 9), rng.randint(-300, 300), rng.randint(-8, 8) * 2 ** rng.randint(0, 6)])
            return self.emit("mkd", x=[kk, n], kind="D")
        if k == "C":
            o = o if o is not None else (rng.randint(0, 1) if self.cxx else 0)
            kk = rng.choice([0, rng.randint(-9, 9), rng.randint(-100, 100)])
            return self.emit("mkc", x=[kk, rng.randint(-2, 6), o], kind="C")
        if k == "I":
            a, b, t = rand_iv(rng, self.cxx)
            if o is not None:
                t = o
            return self.emit("mki", x=[a, b, t], kind="I")
        # partition
        h = self.new("I", o)
        a, b, t = self.ops[-1][2]
        n = rng.choice([0, 1, 2, 3, 5, 8])
        pts = []
        for _ in range(n):
            r = rng.random()
            p = (a + (b - a) * rng.randint(1, 15) / 16) if r < 0.6 else rand_x(rng) if r < 0.8 or GRID[0] else round(rng.uniform(a, b), 1)
            if r > 0.97:
                p = rng.choice([a, b, a - 1, b + 1])
            if p not in pts:
                pts.append(p)
        return self.emit("part", (h,), pts, kind="P" + str(t))

    def reg(self, k):
        c = [i + 1 for i, kk in enumerate(self.kinds) if kk.startswith(k)]
        if not c or self.rng.random() < 0.25 or (len(c) < 2 and self.rng.random() < 0.8):
            return self.new(k)
        return self.rng.choice(c)

    def typed(self, k, t):
        c = [i + 1 for i, kk in enumerate(self.kinds) if kk == k + str(t)]
        if not c or self.rng.random() < 0.3:
            return self.new(k, t)
        return self.rng.choice(c)

    def cells_of(self, h):
        for op, a, x, r in self.ops:
            pass

    def step(self, mode):
        rng, cxx = self.rng, self.cxx
        if mode == "dyadic":
            o = rng.choice(["rebase", "iadd", "float", "lt", "le", "gt", "ge", "deq", "req", "copy"])
            a = self.reg("D")
            if o == "rebase":
                n = rng.randint(-4, 12)
                self.emit(o, (a,), n, inplace=True)
            elif o == "iadd":
                self.emit(o, (a,), rng.randint(-20, 20), inplace=True)
            elif o == "float":
                self.emit(o, (a,))
            elif o == "copy":
                c = self.emit(o, (a,), kind="D") if cxx else self.new("D")
                self.emit("rebase", (c,), rng.randint(0, 12), inplace=True)
                self.emit(rng.choice(["lt", "le", "gt", "ge", "deq", "req"]), (a, c))
            else:
                self.emit(o, (a, self.reg("D")))
        elif mode == "cells":
            ops = ["dincl", "dexcl", "dinf", "dsup", "contained", "omitted", "left", "right", "cell", "ends"]
            if cxx:
                ops += ["flip", "expand", "advance", "cellless", "cellless", "cellhas", "cellhas", "aligned", "cellat",
                        "cellsort", "copyshrink", "family"]
            o = rng.choice(ops)
            if o in ("dincl", "dexcl", "dinf", "dsup"):
                self.emit(o, (self.reg("C"),), kind="D")
            elif o == "contained":
                self.emit(o, (self.reg("C"),), rng.randint(0, 4), kind="C")
            elif o == "omitted":
                self.emit(o, (self.reg("C"),), kind="C")
            elif o == "left":
                self.emit(o, (self.reg("C"),), rng.randint(0, 4), inplace=True)
            elif o in ("right", "flip", "advance"):
                self.emit(o, (self.reg("C"),), inplace=True)
            elif o == "expand":
                self.emit(o, (self.reg("C"),), rng.randint(0, 4), inplace=True)
            elif o == "cell":
                self.emit(o, (self.reg(rng.choice("DC")),), [rng.randint(-3, 6), rng.randint(0, 1) if cxx else 0], kind="C")
            elif o == "cellat":
                self.emit(o, (), [rand_x(rng), rng.randint(-2, 12), rng.randint(0, 1)], kind="C")
            elif o == "cellsort":
                t = rng.randint(0, 1)
                hs = [self.new("C", t) for _ in range(rng.randint(2, 7))]
                self.emit(o, hs)
            elif o in ("family", "copyshrink"):
                # two cells on one line of descent, or of neighbours
                a = self.reg("C")
                b = self.emit("contained" if rng.random() < 0.5 else "copy", (a,), rng.randint(0, 3), kind="C")
                for _ in range(rng.randint(0, 3)):
                    self.emit(rng.choice(["left", "right", "flip"]), (b,), 1, inplace=True)
                self.emit("cellhas", (a, b))
                self.emit("cellhas", (b, a))
                self.emit("cellless", (a, b))
                self.emit("cellless", (b, a))
            elif o in ("ends", "aligned"):
                self.emit(o, (self.reg("C"),))
            else:
                self.emit(o, (self.reg("C"), self.reg("C")))
        elif mode == "pred":
            o = rng.choice(["haspoint", "haspoint", "hasiv", "meet", "meet", "eq", "ends", "real", "touch"])
            k = lambda: self.reg(rng.choice("IIC" if not self.kinds or rng.random() < .8 else "IP"))  # noqa: E731
            a = k()
            if o == "haspoint":
                self.emit(o, (a,), self.point_near(a))
            elif o == "ends":
                self.emit(o, (a,))
            elif o == "real":
                self.emit(o, (a,), kind="I")
            elif o == "touch":
                # an interval sharing an end point with a
                op = next(p for p in self.ops if p[3] == a)
                if op[0] == "mki":
                    x, y, t = op[2]
                    L = 2.0 ** -rng.randint(0, 3)
                    q = rng.choice([(y, y + L), (x - L, x), (x, y), (x, x + L), (y - L, y), (x, y + L)])
                    if q[0] < q[1]:
                        b = self.emit("mki", x=[q[0], q[1], rng.randint(0, 1) if cxx else 0], kind="I")
                        self.emit(rng.choice(["meet", "hasiv", "eq"]), (a, b))
                        self.emit(rng.choice(["meet", "hasiv", "eq"]), (b, a))
            else:
                self.emit(o, (a, k()))
        elif mode == "dissect":
            a = self.new(rng.choice("IIIC"))
            n = rng.choice([rng.randint(-2, 8), rng.randint(0, 14)])
            self.emit("dissect", (a,), [n, rng.randint(0, 1) if cxx else 0])
        elif mode == "partition":
            o = rng.choice(["plen", "piece", "mesh", "points", "midpoints", "insert", "merge", "merge", "merge",
                            "pieces", "copy"])
            a = self.reg("P")
            t = int(self.kinds[a - 1][1])
            if o in ("plen", "mesh", "points"):
                self.emit(o, (a,))
            elif o == "piece" or o == "pieces":
                self.emit("pieces", (a,))
            elif o == "peq":  # not generated: equality of partitions is not specified
                self.emit(o, (a, self.reg("P")))
            elif o == "copy":
                if cxx:
                    b = self.emit("copy", (a,), kind="P" + str(t))
                    pass
            elif o == "midpoints":
                self.emit(o, (a,), kind="P" + str(t))
            elif o == "insert":
                self.emit("insert", (a,), "mid%d" % rng.randint(1, 15) if rng.random() < 0.8 else rand_x(rng), inplace=True)
            else:
                b = self.typed("P", t)
                self.emit("merge", (a, b), kind="P" + str(t))
        elif mode == "segment":
            lo = rng.randint(-8, 8) / 2.0 ** rng.randint(0, 2)
            ln = rng.choice([1, 2, 3, 5, 0.5, 0.75, 1.25, 4])
            h = self.emit("mki", x=[lo, lo + ln, 0], kind="I")
            n = rng.randint(0, 7)
            q = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                s = lo + ln * rng.randint(-4, 36) / 32
                q.append([s, s + ln * rng.choice([1, 2, 3, 8]) / 2.0 ** rng.randint(2, 6)])
            self.emit("segment", (h,), [n, q])

    def point_near(self, a):
        rng = self.rng
        op = next((p for p in self.ops if p[3] == a), None)
        if op and op[0] == "mki" and rng.random() < 0.6:
            x, y, _ = op[2]
            return rng.choice([x, y, (x + y) / 2, x - 2.0 ** -20, y + 2.0 ** -20, y - 2.0 ** -20, x + 2.0 ** -20])
        return rand_x(rng)


def case(g, c):
    """one case of the model (IntervalMC)"""
    cxx = g.cxx
    fl = lambda x: float(Fraction(x))  # noqa: E731
    if c["kind"] == "dissect":
        if cxx or not c["o"]:
            h = g.emit("mki", x=[c["lo"] / 8, c["hi"] / 8, c["n"] % 2 if cxx else 0], kind="I")
            g.emit("dissect", (h,), [c["n"], c["o"]])
    elif c["kind"] == "segment":
        h = g.emit("mki", x=[0.0, 1.0, 0], kind="I")
        g.emit("segment", (h,), [c["n"], [[fl(a), fl(b)] for a, b in c["q"]]])
    elif c["kind"] == "pair":
        if cxx or not (c["c"][2] or c["d"][2]):
            a = g.emit("mki", x=[fl(c["c"][0]), fl(c["c"][1]), int(c["c"][2])], kind="I")
            b = g.emit("mki", x=[fl(c["d"][0]), fl(c["d"][1]), int(c["d"][2])], kind="I")
            for op in "hasiv", "meet", "eq":
                g.emit(op, (a, b))
            g.emit("haspoint", (a,), fl(c["d"][0]))
            g.emit("haspoint", (a,), fl(c["d"][1]))
    elif cxx or not c["c"][2]:
        a = g.emit("mkc", x=[int(c["c"][0]), c["c"][1], int(c["c"][2])], kind="C")
        b = g.emit("mkc", x=[int(c["d"][0]), c["d"][1], int(c["d"][2])], kind="C")
        for op in "dincl", "dexcl", "dinf", "dsup":
            g.emit(op, (a,), kind="D")
        g.emit("ends", (a,))
        if cxx:
            for op in "cellhas", "cellless":
                g.emit(op, (a, b))
                g.emit(op, (b, a))
            g.emit("eq", (a, b))
            g.emit("aligned", (a,))
            g.emit("cell", (a,), [c["d"][1], int(c["c"][2])], kind="C")
            for op, x in (("flip", None), ("expand", 1), ("expand", 2), ("advance", None), ("left", 2), ("right", None)):
                y = g.emit("copy", (a,), kind="C")
                g.emit(op, (y,), x, inplace=True)
        g.emit("contained", (a,), 1, kind="C")
        g.emit("omitted", (a,), kind="C")
        y = g.emit("dincl", (a,), kind="D")
        z = g.emit("dincl", (b,), kind="D")
        for op in "lt", "le", "gt", "ge", "req", "deq":
            g.emit(op, (y, z))
        g.emit("rebase", (y,), c["d"][1], inplace=True)


def programs(rng, n, mode):
    backend, sub = mode.split("/", 1)
    out = []
    if sub.startswith("file:"):
        cases = [json.loads(x) for x in open(sub[5:])]
        for k in range(0, len(cases), 12):
            g = Gen(rng, backend == "cxx")
            for c in cases[k:k + 12]:
                case(g, c)
            if g.ops:
                out.append({"backend": backend, "kinds": g.kinds, "ops": g.ops})
        return out
    GRID[0] = sub == "partition"
    for _ in range(n):
        g = Gen(rng, backend == "cxx")
        for _ in range({"dissect": 6, "segment": 4, "partition": 10}.get(sub, 14)):
            g.step(sub)
        out.append({"backend": backend, "kinds": g.kinds, "ops": g.ops})
    return out


# ----------------------------------------------------------------- backends
def F(x):
    return rat(Fraction(x))


class Cxx:
    def __init__(self):
        self.p = subprocess.Popen([os.environ["IVDRV"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.n = 0

    def ask(self, *words):
        s = " ".join(w.hex() if isinstance(w, float) else str(w) for w in words)
        self.p.stdin.write(s + "\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r:
            raise drv.Unexpected("the process ended at: " + s)
        return r.strip()

    def close(self):
        self.p.stdin.close()
        self.p.wait()

    def show(self, h):
        w = self.ask("show", h).split()
        if w[0] == "D":
            return {"k": w[1], "n": int(w[2])}
        if w[0] == "C":
            return {"k": w[1], "n": int(w[2]), "o": w[3] == "1"}
        v = {"inf": F(float.fromhex(w[1])), "sup": F(float.fromhex(w[2])), "o": w[3] == "1"}
        if w[0] == "P":
            v["pts"] = [F(float.fromhex(x)) for x in w[4:]]
        return v

    @staticmethod
    def cells(s):
        w = s.split()
        return [{"k": w[j], "n": int(w[j + 1]), "o": w[j + 2] == "1"} for j in range(0, len(w), 3)]

    @staticmethod
    def ivs(s):
        w = s.split()
        return [{"inf": F(float.fromhex(w[j])), "sup": F(float.fromhex(w[j + 1])), "o": w[j + 2] == "1"}
                for j in range(0, len(w), 3)]

    def do(self, op, a, x, r):
        """returns the answer, or None"""
        if op in ("mkd", "mkc"):
            self.ask(op, r, *x)
        elif op == "mki":
            self.ask(op, r, float(x[0]), float(x[1]), x[2])
        elif op == "cellat":
            self.ask(op, r, float(x[0]), x[1], x[2])
        elif op == "cell":
            self.ask(op, *a, r, *x)
        elif op == "contained":
            self.ask(op, *a, r, x)
        elif op in ("dincl", "dexcl", "dinf", "dsup", "omitted", "real", "copy", "midpoints", "merge"):
            self.ask(op, *a, r)
        elif op == "part":
            self.ask(op, *a, r, len(x), *[float(p) for p in x])
        elif op in ("rebase",):
            return self.ask(op, *a, x) == "1"
        elif op in ("iadd", "left", "expand"):
            self.ask(op, *a, x)
        elif op in ("right", "flip", "advance"):
            self.ask(op, *a)
        elif op == "insert":
            return self.ask(op, *a, float(x))
        elif op in ("float", "mesh"):
            return F(float.fromhex(self.ask(op, *a)))
        elif op in ("lt", "le", "gt", "ge", "deq", "req", "hasiv", "meet", "eq", "cellless", "cellhas", "aligned", "peq"):
            return self.ask(op, *a) == "1"
        elif op == "haspoint":
            return self.ask(op, *a, float(x)) == "1"
        elif op in ("ends", "points"):
            return [F(float.fromhex(w)) for w in self.ask(op, *a).split()]
        elif op == "cellsort":
            return self.cells(self.ask(op, *a))
        elif op == "dissect":
            return self.cells(self.ask(op, *a, *x))
        elif op == "plen":
            return int(self.ask(op, *a))
        elif op == "piece":
            return self.ivs(self.ask(op, *a, x))[0]
        elif op == "segment":
            n, q = x
            return self.ivs(self.ask(op, *a, n, len(q), *[float(p) for s in q for p in s]))
        else:
            raise ValueError(op)
        return None


class Py:
    def __init__(self, reload=False):
        import roughpy
        self.rp, self.regs, self.reload = roughpy, [], reload

    def close(self):
        pass

    def show(self, h):
        return self.val(self.regs[h - 1])

    def val(self, x):
        rp = self.rp
        o = False
        if isinstance(x, rp.DyadicInterval):
            assert x.interval_type == rp.IntervalType.Clopen
            e = x.dyadic_included_end()
            return {"k": str(e.k), "n": e.n, "o": o}
        if isinstance(x, rp.Dyadic):
            return {"k": str(x.k), "n": x.n}
        assert x.interval_type == rp.IntervalType.Clopen
        v = {"inf": F(x.inf()), "sup": F(x.sup()), "o": o}
        if isinstance(x, rp.Partition):
            v["pts"] = [F(p) for p in x.intermediates()]
        return v

    def put(self, r, v):
        if self.reload:
            w = pickle.loads(pickle.dumps(v))
            if type(w) is not type(v):
                raise drv.Unexpected("a %s became a %s" % (type(v), type(w)))
            v = w
        if r <= len(self.regs):
            self.regs[r - 1] = v
        else:
            self.regs.append(v)

    def do(self, op, a, x, r):
        rp = self.rp
        v = [self.regs[j - 1] for j in a]
        if op == "mkd":
            self.put(r, rp.Dyadic(*x))
        elif op == "mkc":
            self.put(r, rp.DyadicInterval(x[0], x[1]))
        elif op == "mki":
            self.put(r, rp.RealInterval(x[0], x[1]))
        elif op == "cell":
            y = v[0] if not isinstance(v[0], rp.DyadicInterval) else v[0].dyadic_included_end()
            self.put(r, rp.DyadicInterval(y, x[0]))
        elif op == "contained":
            self.put(r, v[0].shrink_to_contained_end(x))
        elif op == "omitted":
            self.put(r, v[0].shrink_to_omitted_end())
        elif op in ("dincl", "dexcl", "dinf", "dsup"):
            f = {"dincl": "dyadic_included_end", "dexcl": "dyadic_excluded_end", "dinf": "dyadic_inf", "dsup": "dyadic_sup"}[op]
            self.put(r, getattr(v[0], f)())
        elif op == "real":
            self.put(r, rp.RealInterval(v[0]))
        elif op == "part":
            self.put(r, rp.Partition(v[0], list(x)))
        elif op == "midpoints":
            self.put(r, v[0].refine_midpoints())
        elif op == "merge":
            self.put(r, v[0].merge(v[1]))
        elif op == "rebase":
            return v[0].rebase(x)
        elif op == "iadd":
            y = v[0]
            y += x
            self.put(a[0], y)
        elif op == "left":
            v[0].shrink_left(x)
        elif op == "right":
            v[0].shrink_right()
        elif op == "insert":
            try:
                v[0].insert_intermediate(x)
                return "ok"
            except (ValueError, RuntimeError):
                return "error"
        elif op == "float":
            return F(float(v[0]))
        elif op == "mesh":
            return F(v[0].mesh())
        elif op == "lt":
            return v[0] < v[1]
        elif op == "le":
            return v[0] <= v[1]
        elif op == "gt":
            return v[0] > v[1]
        elif op == "ge":
            return v[0] >= v[1]
        elif op == "deq":
            return rp.Dyadic.dyadic_equals(v[0], v[1])
        elif op == "req":
            return rp.Dyadic.rational_equals(v[0], v[1])
        elif op == "hasiv":
            return v[0].contains(v[1])
        elif op == "haspoint":
            return v[0].contains(x)
        elif op == "meet":
            return v[0].intersects_with(v[1])
        elif op in ("eq", "peq"):
            return v[0] == v[1]
        elif op == "ends":
            return [F(v[0].inf()), F(v[0].sup()), F(v[0].included_end()), F(v[0].excluded_end())]
        elif op == "points":
            return [F(p) for p in v[0].intermediates()]
        elif op == "dissect":
            if len(self.regs) % 2:
                return [self.val(c) for c in rp.DyadicInterval.to_dyadic_intervals(v[0], x[0])]
            return [self.val(c) for c in rp.DyadicInterval.to_dyadic_intervals(v[0].inf(), v[0].sup(), x[0])]
        elif op == "plen":
            return len(v[0])
        elif op == "piece":
            return self.val(v[0][x])
        elif op == "segment":
            n, q = x
            pred = lambda i: not any(s < i.sup() and i.inf() < t for s, t in q)  # noqa: E731
            return [self.val(i) for i in rp.segment(v[0], pred, n)]
        else:
            raise ValueError(op)
        return None


def execute(desc, rec):
    be = Cxx() if desc["backend"] == "cxx" else Py(desc["backend"] == "pk")
    if desc["backend"] == "cxx":
        be.ask("reset")
    nreg = 0
    rec.header(backend=desc["backend"])
    for op, a, x, r in desc["ops"]:
        rec.begin([op, a, x, r])
        if op == "pieces":
            m = be.do("plen", a, None, 0)
            for j in range(m):
                rec.event({"op": "piece", "a": a, "x": j, "r": 0, "res": be.do("piece", a, j, 0), "obs": []})
            continue
        if op == "insert" and isinstance(x, str):
            # a point strictly between two cuts
            p = be.show(a[0])
            ends = [Fraction(p["inf"])] + [Fraction(q) for q in p["pts"]] + [Fraction(p["sup"])]
            j = int(x[3:]) % (len(ends) - 1)
            x = float(ends[j] + (ends[j + 1] - ends[j]) * Fraction(int(x[3:]), 16))
            if F(x) in p["pts"]:
                continue
        elif op == "insert":
            p = be.show(a[0])
            if F(x) in p["pts"] + [p["inf"], p["sup"]]:
                continue
        res = be.do(op, a, x, r)
        ev = {"op": op, "a": a, "x": 0, "r": r}
        if op in ("mkd", "mkc", "mki"):
            ev["op"] = "mk"
            if op == "mki":
                ev["x"] = {"inf": F(x[0]), "sup": F(x[1]), "o": bool(x[2])}
            elif op == "mkd":
                ev["x"] = {"k": str(x[0]), "n": x[1]}
            else:
                ev["x"] = {"k": str(x[0]), "n": x[1], "o": bool(x[2])}
        elif op in ("cell", "dissect"):
            ev["x"] = {"n": x[0], "o": bool(x[1])}
        elif op == "cellat":
            ev["x"] = {"p": F(x[0]), "n": x[1], "o": bool(x[2])}
        elif op == "iadd":
            ev["x"] = str(x)
        elif op in ("haspoint", "insert"):
            ev["x"] = F(x)
        elif op == "part":
            ev["x"] = [F(p) for p in x]
        elif op == "segment":
            ev["x"] = {"n": x[0], "q": [[F(s), F(t)] for s, t in x[1]]}
        elif isinstance(x, int):
            ev["x"] = x
        if res is not None:
            ev["res"] = res
        nreg = max(nreg, r)
        ev["obs"] = [{"h": h, "v": be.show(h)} for h in sorted(set(a) | ({r} if r else set()))]
        rec.event(ev)
    rec.event({"op": "show", "a": [], "x": 0, "r": 0, "obs": [{"h": h, "v": be.show(h)} for h in range(1, nreg + 1)]})
    be.close()


if __name__ == "__main__":
    drv.main(sys.modules["__main__"])
