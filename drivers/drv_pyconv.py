"""Numbers and arrays of Python read as the coefficients of tensors and Lie
elements of every coefficient type, and the elements multiplied and divided by
numbers of Python; recorded for ScalarTrace.tla.  Mode: py."""
import array
import sys
from fractions import Fraction

import numpy as np
import roughpy as rp

import drv
from drv import rat
from rplib import frac, lie_coords, tensor_levels

DT = {"f": rp.SPReal, "d": rp.DPReal, "Q": rp.Rational}
NP = {"int8": 7, "int16": 15, "int32": 31, "int64": 63, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64,
      "float16": 11, "float32": 24, "float64": 53}


def value(r, dt):
    if dt == "int":
        return r.choice([0, 1, -1, r.randint(-9, 9), r.randint(-10 ** 6, 10 ** 6), r.randint(-2 ** 53, 2 ** 53),
                         r.randint(-2 ** 63, 2 ** 63 - 1)])
    if dt == "frac":
        return Fraction(r.randint(-60, 60), r.choice([1, 2, 3, 7, 10]))
    if dt == "float":
        dt = "float64"
    n = NP[dt]
    if "int" in dt:
        lo, hi = (0, 2 ** n - 1) if dt[0] == "u" else (-2 ** n, 2 ** n - 1)
        return r.choice([0, 1, lo, hi, r.randint(lo, hi), r.randint(max(lo, -9), 9)])
    if r.random() < 0.15:
        return 0.0
    if r.random() < 0.4:
        return r.randint(-60, 60) / r.choice([1, 2, 4, 8])
    if dt == "float16":
        return r.randint(-2 ** 11, 2 ** 11) * 2.0 ** r.randint(-12, 3)
    return r.randint(-2 ** n, 2 ** n) * 2.0 ** r.randint(-60, 20)


NAMES = {rp.SPReal: "f", rp.DPReal: "d", rp.Rational: "Q", float: "d"}
FORMS = ["contig", "contig", "strided", "reversed", "column"]


def programs(rng, n, mode):
    out = []
    for _ in range(n):
        r = rng
        w, d = r.choice([(2, 2), (3, 2), (2, 3), (5, 1)])
        prog = {"w": w, "d": d, "ops": []}
        for _ in range(r.randint(1, 5)):
            t, kind = r.choice("fdQ"), r.choice(["tensor", "lie", "shuffle"])
            size = r.randint(1, {"lie": {(2, 2): 3, (3, 2): 6, (2, 3): 5, (5, 1): 5}[w, d]}.get(kind, sum(w ** k for k in range(d + 1))))
            x = r.random()
            if x < 0.6:
                dt, form = r.choice(list(NP)), r.choice(FORMS)
            elif x < 0.7:
                dt, form = r.choice(["float64", "float32"]), "array"
            else:
                dt, form = r.choice(["int", "float", "float"]), r.choice(["list", "tuple", "dict"])
                if form == "tuple" and size == 2:
                    form = "list"       # a pair of a key and a value
            o = {"op": "py", "t": t, "kind": kind, "dt": dt, "f": form, "v": [str(value(r, dt)) for _ in range(size)]}
            prog["ops"].append(o)
            if r.random() < 0.5:
                op = r.choice(["pymul", "pydiv", "pyrmul"])
                dt = r.choice(["int", "float", "frac"] + (["float32", "float64", "int64", "int32"] if op != "pyrmul" else []))
                prog["ops"].append(dict(o, op=op, ydt=dt, y=str(value(r, dt))))
            if r.random() < 0.5:
                # coefficients of the element as scalars
                dt = r.choice(["int", "float", "self"])
                op = r.choice(["add", "mul", "eq"] if dt == "self" else ["add", "sub", "mul", "radd", "rsub", "rmul", "eq", "neg"])
                prog["ops"].append(dict(o, op="pyscalar", f=op, form=form, ydt=dt, k=r.randrange(size),
                                        j=r.randrange(size), y=str(value(r, dt)) if dt != "self" else "0"))
        out.append(prog)
    return out


def num(s, dt):
    if dt == "frac":
        # these are multiplied as floats
        return Fraction(float(Fraction(s)))
    if "int" in dt:
        return int(s)
    return float(s)


def data(o):
    xs, dt, form = [num(s, o["dt"]) for s in o["v"]], o["dt"], o.get("form", o["f"])
    if form == "list":
        return xs
    if form == "tuple":
        return tuple(xs)
    if form == "dict":
        return dict(enumerate(xs))
    a = np.array(xs, dtype=dt)
    if form == "array":
        return array.array({"float64": "d", "float32": "f"}[dt], xs)
    if form == "strided":
        b = np.full(3 * len(xs), 77, dtype=dt)
        b[::3] = a
        return b[::3]
    if form == "reversed":
        return a[::-1].copy()[::-1]
    if form == "column":
        b = np.full((len(xs), 2), 77, dtype=dt)
        b[:, 1] = a
        return b[:, 1]
    return a


def execute(desc, rec):
    rec.header(nr=1, na=1)
    w, d = desc["w"], desc["d"]
    for o in desc["ops"]:
        rec.begin(o)
        t = o["t"]
        ctx = rp.get_context(w, d, DT[t])
        cls = {"tensor": rp.FreeTensor, "lie": rp.Lie, "shuffle": rp.ShuffleTensor}[o["kind"]]
        e = {"op": o["op"], "d": 1, "a": 1, "b": 1, "t": t, "k": 1, "f": o["f"], "v": [], "exc": "", "res": [],
             "obs": {"t": "0", "v": []}, "arr": {"t": t, "v": []}, "all": [], "w": []}
        xs = [Fraction(num(s, o["dt"])) for s in o["v"]]
        e["w"] = [[[[], rat(x)]] if x else [] for x in xs]

        def coords(x):
            v = lie_coords(x, ctx) if o["kind"] == "lie" else [c for lev in tensor_levels(x, w, d) for c in lev]
            return [[] if c == "0" else [[[], c]] for c in v]

        def scalar(s):
            try:
                t = NAMES[s.scalar_type()]
            except TypeError:
                t = "?"
            return {"t": t, "v": [[[], rat(c)]] if (c := frac(s)) else []}
        try:
            src = data(o)
            x = cls(src, ctx=ctx)
            keep = coords(x)
            if o["op"] == "pyscalar":
                e["y"], e["before"] = [], keep
                S = [it.value() for it in x]
                a, b = S[o["k"] % len(S)] if S else None, S[o["j"] % len(S)] if S else None
                if a is None:
                    continue
                if o["ydt"] != "self":
                    b = num(o["y"], o["ydt"])
                f = o["f"]
                e["w"] = [scalar(a)["v"], scalar(b)["v"] if o["ydt"] == "self" else [[[], rat(Fraction(b))]] if b else []]
                if f == "eq":
                    if not (o["ydt"] == "self" or Fraction(b).denominator):
                        continue
                    e["res"] = [a == b, a != b]
                else:
                    r = (-a if f == "neg" else a + b if f == "add" else a - b if f == "sub" else a * b if f == "mul"
                         else b + a if f == "radd" else b - a if f == "rsub" else b * a)
                    e["obs"] = scalar(r)
            elif o["op"] != "py":
                y = num(o["y"], o["ydt"])
                if o["ydt"] in NP:
                    y = getattr(np, o["ydt"])(y)
                e["y"] = [[[], rat(Fraction(num(o["y"], o["ydt"])))]] if y else []
                r = x * y if o["op"] == "pymul" else x / y if o["op"] == "pydiv" else y * x
                e["before"] = coords(x)
                x = r
            else:
                e["y"], e["before"] = [], keep
                # the element does not change with what it was read from
                if isinstance(src, np.ndarray) and src.flags.writeable:
                    src[...] = 1
                    del src
                    e["before"] = coords(x)
            e["first"] = keep
            e["arr"]["v"] = coords(x)
        except OverflowError:
            e["res"] = [True]
            e["first"] = keep
        except Exception as exc:  # noqa: BLE001
            e["exc"] = "%s: %s" % (type(exc).__name__, str(exc)[:80])
            e.setdefault("y", [])
            e.setdefault("before", [])
            e["first"] = []
        rec.event(e)


if __name__ == "__main__":
    drv.main(sys.modules[__name__])
