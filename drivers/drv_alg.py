"""Random programs over algebra objects, executed on the real classes and
recorded for AlgTrace.tla.  Modes: ring, shuffle, explog, lie, inplace, and
poly (all of them, with polynomial coefficients).  Mode re:<mode>: some of the
values are replaced by copies reloaded from their pickled form."""
import pickle
import sys

import numpy as np
import roughpy as rp

import drv
from drv import rat
from rplib import DT, VT, ctx_of, frac, tensor_levels, lie_coords, read_poly, make_poly
from fractions import Fraction

SMALL = [(1, 1), (1, 4), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (4, 2), (5, 2), (7, 2), (10, 2)]
LARGE = [(2, 5), (2, 6), (2, 7), (2, 8), (3, 4), (3, 5), (4, 3), (4, 4), (5, 3), (6, 3), (1, 9), (17, 2), (33, 1)]
INPL = {"iadd": "add", "isub": "sub", "ismul": "smul", "isdiv": "sdiv", "imul": "mul"}

_keep = {}


def SC(n, t):
    """a library scalar n (the tensor owning it is kept alive)"""
    k = (n, t)
    if k not in _keep:
        _keep[k] = rp.FreeTensor([n], ctx=ctx_of(1, 1, t))
    return _keep[k][0]


def tsize(w, d):
    return sum(w ** k for k in range(d + 1))


_lsz = {}


def lsize(w, d):
    if (w, d) not in _lsz:
        _lsz[(w, d)] = ctx_of(w, d).lie_size(d)
    return _lsz[(w, d)]


def rand_vec(rng, n, offs, big, fl, const=None):
    """coefficients of one of several shapes; offs: first index of each degree"""
    shape = rng.choice(["full", "half", "few", "few", "level", "top", "low", "prefix", "one", "zero", "ends"])
    mx = 2 if fl else 9
    val = lambda: rng.choice([-1, 1]) * rng.randint(1, mx)  # noqa: E731
    v = [0] * n
    if shape == "full" and not big:
        v = [val() for _ in range(n)]
    elif shape in ("half", "full"):
        v = [val() if rng.random() < (0.15 if big else 0.5) else 0 for _ in range(n)]
    elif shape == "few":
        for _ in range(rng.randint(1, 4)):
            v[rng.randrange(n)] = val()
    elif shape in ("level", "top", "low"):
        m = len(offs) - 1
        k = {"level": rng.randrange(m), "top": m - 1, "low": min(1, m - 1)}[shape]
        for i in range(offs[k], offs[k + 1]):
            if rng.random() < (0.3 if big else 0.8):
                v[i] = val()
    elif shape == "prefix":
        for i in range(rng.randint(1, n)):
            if rng.random() < (0.2 if big else 0.7):
                v[i] = val()
    elif shape == "one":
        v[rng.randrange(n)] = 1
    elif shape == "ends":
        v[0] = val()
        v[n - 1] = val()
    if const is not None:
        v[0] = const
    return v


class Gen:
    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode
        r = rng.random()
        self.t = "R" if r < 0.75 else ("D" if r < 0.93 else "S")
        if mode == "poly":
            self.t, self.mode = "P", rng.choice(["ring", "shuffle", "explog", "lie", "inplace"])
        self.large = rng.random() < (0.25 if mode in ("ring", "explog", "lie") else 0.15)
        self.w, self.d = rng.choice(LARGE if self.large else SMALL)
        if self.t == "S" and self.d > 5:
            self.d = 4
        if self.t == "P":
            self.large = False
            self.w, self.d = rng.choice([(1, 3), (2, 1), (2, 2), (2, 2), (2, 3), (2, 3), (3, 2), (2, 4), (3, 3), (5, 2)])
            self.letters = rng.sample(["x1", "x2", "y1", "z10", "a0"], rng.randint(1, 4))
        if mode == "shuffle" and self.d > 7:
            self.d = 7
        # brackets of high degree: products of basis elements only
        self.deep = mode == "lie" and rng.random() < 0.03
        if self.deep:
            self.t, (self.w, self.d) = "R", rng.choice([(3, 6), (2, 9)])
        self.kinds, self.ops = [], []
        self.size = tsize(self.w, self.d)

    def lit(self, kind, const=None):
        rng = self.rng
        big = self.size > 150
        if kind == "L":
            n = lsize(self.w, self.d)
            big = n > 250
            offs = [0] + [lsize(self.w, k) for k in range(1, self.d + 1)]
        else:
            n = self.size
            offs = [0] + [tsize(self.w, k) for k in range(self.d + 1)]
        v = rand_vec(rng, n, offs, big, self.t != "R", const)
        form = rng.choice(["list", "array", "short"])
        den = rng.choice([1, 1, 1, 2, 4])
        if const is not None:
            den = 1
        if self.t == "P":
            form = "list"
            v = [self.poly(c, const is not None and i == 0) for i, c in enumerate(v)]
        self.ops.append(["lit", kind, rng.choice("ds"), form, den, v])
        self.kinds.append(kind)
        return len(self.kinds)

    def poly(self, c, const=False):
        """a polynomial with the given coefficient in front (terms with powers
        of letters); a constant where asked for"""
        if c == 0:
            return []
        rng = self.rng
        terms, seen = [], []
        for k in range(rng.choice([1, 1, 1, 1, 2, 3])):
            m = {l: rng.choice([1, 1, 2]) for l in rng.sample(self.letters, rng.choice([0, 1, 1, min(2, len(self.letters))]))}
            if const:
                m = {}
            if m not in seen:
                seen.append(m)
                terms.append([[[l, p] for l, p in m.items()], rat(Fraction(c if k == 0 else rng.choice([-1, 1, 2, 3]),
                                                                             1 if const else rng.choice([1, 1, 2, 3])))])
        return terms

    def bracket(self, n):
        """a bracket of basis elements, of total degree n"""
        rng = self.rng
        top = [k for k in range(1, self.d) if k <= min(n, 5)]
        if n == 1 or n in top and rng.random() < 0.4:
            v = [0] * lsize(self.w, self.d)
            v[rng.randrange(lsize(self.w, n - 1) if n > 1 else 0, lsize(self.w, n))] = rng.choice([1, 1, 1, -1, 2])
            self.ops.append(["lit", "L", rng.choice("ds"), "list", 1, v])
            self.kinds.append("L")
            return len(self.kinds)
        k = rng.randint(1, n - 1)
        a, b = self.bracket(k), self.bracket(n - k)
        self.new("brk", "L", (a, b))
        return len(self.kinds)

    def empty(self, kind):
        """zero, stored without any coefficient"""
        n = lsize(self.w, self.d) if kind == "L" else self.size
        a = self.lit(kind)
        self.ops.append(["lit", kind, "s", "list", 1, [[] if self.t == "P" else 0] * n])
        self.kinds.append(kind)
        b = len(self.kinds)
        self.new("brk" if kind == "L" else "mul", kind, (a, b) if self.rng.random() < 0.8 else (b, a))
        return len(self.kinds)

    def reg(self, kind):
        if self.rng.random() < 0.04:
            return self.empty(kind)
        c = [i + 1 for i, k in enumerate(self.kinds) if k == kind]
        if not c or (len(c) < 2 and self.rng.random() < 0.8) or self.rng.random() < 0.15:
            return self.lit(kind)
        return self.rng.choice(c)

    def num(self):
        return self.rng.choice([-3, -2, -1, 2, 3, 4, 5]) if self.t in "RP" else self.rng.choice([-2, -1, 2])

    def new(self, op, kind, a, s=()):
        self.ops.append([op, list(a), list(s)])
        self.kinds.append(kind)

    def inp(self, op, a, s=()):
        self.ops.append([op, list(a), list(s)])

    def step(self):
        rng, mode = self.rng, self.mode
        if mode == "ring":
            o = rng.choice(["add", "sub", "neg", "smul", "rsmul", "sdiv", "smulc", "mul", "mul", "mul", "mul", "fm", "q", "eq"])
            self.binary("F", o)
        elif mode == "shuffle":
            o = rng.choice(["mul", "mul", "mul", "sm", "half", "half", "adj", "adj", "add", "smul", "q", "eq", "pair", "pair"])
            self.binary("S", o)
        elif mode == "lie":
            o = rng.choice(["brk", "brk", "brk", "add", "sub", "smul", "cbh", "cbh", "l2t", "t2l", "q", "eq", "logsig",
                            "expcbh"])
            self.binary("L", o)
        elif mode == "explog":
            o = rng.choice(["exp", "exp", "explie", "log", "logexp", "anti", "fmexp", "antiexp", "expprod", "add", "mul"])
            self.binary("F", o)
        else:
            k = rng.choice("FFSL")
            o = rng.choice(["iadd", "isub", "ismul", "isdiv", "imul", "asm", "ssm", "asd", "ssd", "addmul", "submul",
                            "mulsm", "mulsd", "add", "neg", "smul", "smulc", "ismulc", "eq"])
            self.binary(k, o)

    def binary(self, k, o):
        rng = self.rng
        if o in ("add", "sub", "mul", "brk", "half", "fm", "sm"):
            if o == "half":
                a = self.lit("S", const=0)
                b = self.reg("S")
            else:
                a, b = self.reg(k), self.reg(k)
                if rng.random() < 0.05:
                    b = a
            self.new(o, k, (a, b))
        elif o == "adj":
            ka, kb = rng.choice(["FS", "FS", "FF", "SS"])
            a, b = self.reg(ka), self.reg(kb)
            self.new(o, kb, (a, b))
        elif o in ("neg", "anti"):
            self.new(o, k, (self.reg(k),))
        elif o in ("smul", "rsmul", "sdiv"):
            self.new(o, k, (self.reg(k),), (self.num(),))
        elif o in ("smulc", "ismulc"):
            # multiplication by a coefficient of a tensor
            a, b = self.reg(k), self.reg(rng.choice("FS"))
            (self.new if o == "smulc" else self.inp)(*((o, k) if o == "smulc" else (o,)), (a, b), (rng.randrange(1000),))
        elif o in ("iadd", "isub", "imul"):
            a, b = self.reg(k), self.reg(k)
            self.inp(o, (a, b))
        elif o in ("ismul", "isdiv"):
            self.inp(o, (self.reg(k),), (self.num(),))
        elif o in ("asm", "ssm", "asd", "ssd", "mulsm", "mulsd"):
            self.inp(o, (self.reg(k), self.reg(k)), (self.num(),))
        elif o in ("addmul", "submul"):
            self.inp(o, (self.reg(k), self.reg(k), self.reg(k)))
        elif o == "pair":
            self.inp("pair", (self.reg("S"), self.reg("F")))
        elif o == "q":
            self.inp(rng.choice(["degree", "size", "iszero", "coeff"]), (self.reg(k),), (rng.randrange(1000),))
        elif o == "eq":
            a = self.reg(k)
            b = self.reg(k)
            if rng.random() < 0.5:      # an equal value obtained in another way
                self.new("add", k, (a, b))
                c = len(self.kinds)
                self.new("sub", k, (c, b))
                b = len(self.kinds)
            if self.t in "RP":
                self.inp("eq", (a, b))
        elif o == "cbh":
            n = rng.choice([1, 2, 2, 3, 4])
            self.new("cbh", "L", [self.reg("L") for _ in range(n)], (rng.choice([0, 1]),))
        elif o == "expcbh":
            self.new("cbh", "L", [self.reg("L"), self.reg("L")], (rng.choice([0, 1]),))
            self.new("l2t", "F", (len(self.kinds),))
            self.new("exp", "F", (len(self.kinds),))
        elif o == "l2t":
            self.new("l2t", "F", (self.reg("L"),))
        elif o == "t2l":
            self.new("l2t", "F", (self.reg("L"),))
            a = len(self.kinds)
            self.new("t2l", "L", (a,))
        elif o == "logsig":
            self.new("l2t", "F", (self.reg("L"),))
            self.new("exp", "F", (len(self.kinds),))
            a = len(self.kinds)
            if rng.random() < 0.5:
                self.new("l2t", "F", (self.reg("L"),))
                self.new("exp", "F", (len(self.kinds),))
                self.new("mul", "F", (a, len(self.kinds)))
            self.new("logsig", "L", (len(self.kinds),))
        elif o == "exp":
            self.new("exp", "F", (self.lit("F", const=0),))
        elif o == "explie":
            self.new("l2t", "F", (self.lit("L"),))
            self.new("exp", "F", (len(self.kinds),))
        elif o == "log":
            self.new("log", "F", (self.lit("F", const=1),))
        elif o == "logexp":
            self.new("exp", "F", (self.lit("F", const=0),))
            self.new("log", "F", (len(self.kinds),))
        elif o == "antiexp":
            self.new("l2t", "F", (self.lit("L"),))
            self.new("exp", "F", (len(self.kinds),))
            a = len(self.kinds)
            self.new("anti", "F", (a,))
            self.new("mul", "F", (a, a + 1))
        elif o == "fmexp":
            self.inp("fmexp", (self.reg("F"), self.lit("F", const=0)))
        elif o == "expprod":
            a, b = self.lit("F", const=0), self.lit("F", const=0)
            self.new("exp", "F", (a,))
            self.new("exp", "F", (b,))
            n = len(self.kinds)
            self.new("mul", "F", (n - 1, n))
        else:
            raise ValueError(o)


def programs(rng, n, mode):
    out = []
    again, mode = mode.startswith("re:"), mode.replace("re:", "")
    for _ in range(n):
        g = Gen(rng, mode)
        if g.deep:
            # every product of two basis elements at once, and one of many factors
            g.kinds += ["L", "L"]
            for _ in range(2):
                g.ops.append(["lit", "L", rng.choice("ds"), "list", 1,
                              [rng.choice([-1, 1]) * rng.randint(1, 9) for _ in range(lsize(g.w, g.d))]])
            g.new("brk", "L", (1, 2))
            g.bracket(g.d - (rng.random() < 0.2))
            m = 0
        elif g.t == "R":
            m = rng.randint(2, 4) if g.large else rng.randint(3, 8)
        else:
            m = rng.randint(1, 3 if g.t != "P" else 4)
        for _ in range(m):
            g.step()
        out.append({"w": g.w, "d": g.d, "t": g.t, "kinds": g.kinds, "ops": g.ops})
        if again:
            out[-1]["again"] = [rng.random() < 0.7 for _ in g.ops]
        if g.t == "P":
            # the point polynomials are evaluated at: nothing but zero vanishes
            out[-1]["pt"] = {l: rat(Fraction(rng.randrange(1 << 58, 1 << 60), 3)) for l in g.letters}
    return out


def trim0(v):
    v = list(v)
    while len(v) > 1 and v[-1] == 0:
        v.pop()
    return v


def execute(desc, rec):
    w, d, t = desc["w"], desc["d"], desc["t"]
    ctx = ctx_of(w, d, t)
    dig = {"R": 0, "P": 0, "D": 7, "S": 2}[t]
    sym = t == "P"
    num, zero = (lambda v: read_poly(str(v)), []) if sym else (lambda v: rat(frac(v)), "0")
    rec.header(w=w, d=d, dig=dig, t=t, sym=sym, pt=desc.get("pt", {"x": "0"}))
    regs, kinds = [], []
    CLS = {"F": rp.FreeTensor, "S": rp.ShuffleTensor, "L": rp.Lie}

    again = desc.get("again", [])

    def keep(x):
        if len(regs) < len(again) and again[len(regs)]:
            y = pickle.loads(pickle.dumps(x))
            if type(y) is not type(x) or y != x or y.context != x.context:
                raise drv.Unexpected("reloaded otherwise")
            x = y
        regs.append(x)

    def observe(h):
        k = kinds[h - 1]
        if k == "L":
            return {"h": h, "l": True, "v": lie_coords(regs[h - 1], ctx, num, zero)}
        return {"h": h, "l": False, "v": tensor_levels(regs[h - 1], w, d, num, zero)}

    for op in desc["ops"]:
        name = op[0]
        rec.begin(op)
        if name == "lit":
            _, kind, vt, form, den, v = op
            vals = [make_poly(x) for x in v] if sym else [x / den for x in v]
            data = trim0(vals) if form == "short" else vals
            if form == "array":
                data = np.array(data, dtype=float)
            x = CLS[kind](data, ctx=ctx, vector_type=VT[vt])
            keep(x)
            kinds.append(kind)
            h = len(regs)
            fr = v if sym else [rat(Fraction(c, den)) for c in v]
            ev = {"op": "lit" if kind != "L" else "litL", "a": [], "s": [], "r": h}
            if kind == "L":
                ev["v"] = fr
            else:
                lv, o = [], 0
                for k in range(d + 1):
                    lv.append(fr[o:o + w ** k])
                    o += w ** k
                ev["v"] = lv
            ev["obs"] = [observe(h)]
            rec.event(ev)
            continue
        a, s = op[1], op[2]
        x = [regs[j - 1] for j in a]
        kk = kinds[a[0] - 1]
        prod = {"F": "mul", "S": "shuf", "L": "brk"}[kk]
        ev = {"a": a, "s": [rat(n) for n in s], "r": 0}
        res, inplace, query = None, False, False
        spec = name
        if name == "add":
            res = x[0] + x[1]
        elif name == "sub":
            res = x[0] - x[1]
        elif name == "neg":
            res = -x[0]
        elif name in ("smul", "rsmul"):
            res = x[0] * s[0] if name == "smul" else s[0] * x[0]
            spec = "smul"
        elif name == "sdiv":
            res = x[0] / s[0]
        elif name in ("smulc", "ismulc"):
            i = s[0] % tsize(w, d)
            c = x[1][ctx.tensor_basis.index_to_key(i)]
            k = 0
            while i >= w ** k:
                i -= w ** k
                k += 1
            ev["key"], ev["s"] = [k, i], []
            if name == "smulc":
                res = x[0] * c
            else:
                y = x[0]
                y *= c
                res, inplace = y, True
            spec = "smulc"
        elif name in ("mul", "brk"):
            res = x[0] * x[1]
            spec = prod
        elif name == "fm":
            res = rp.free_multiply(x[0], x[1])
            spec = "mul"
        elif name == "sm":
            res = rp.shuffle_multiply(x[0], x[1])
            spec = "shuf"
        elif name == "half":
            res = rp.half_shuffle_multiply(x[0], x[1])
        elif name == "adj":
            res, kk = rp.adjoint_to_free_multiply(x[0], x[1]), kinds[a[1] - 1]
        elif name == "exp":
            res = x[0].exp()
        elif name == "log":
            res = x[0].log()
        elif name == "anti":
            res = x[0].antipode()
        elif name == "fmexp":
            res, inplace = x[0].fmexp(x[1]), True
        elif name == "l2t":
            res = ctx.lie_to_tensor(x[0])
            spec, kk = "id", "F"
        elif name == "t2l":
            res = ctx.tensor_to_lie(x[0])
            spec, kk = "id", "L"
        elif name == "logsig":
            res = ctx.to_logsignature(x[0])
            spec, kk = "log", "L"
        elif name == "cbh":
            res = ctx.cbh(x, rp.DenseVector if s[0] == 0 else rp.SparseVector)
            ev["s"] = []
        elif name in INPL:
            y = x[0]
            if name == "iadd":
                y += x[1]
            elif name == "isub":
                y -= x[1]
            elif name == "imul":
                y *= x[1]
            elif name == "ismul":
                y *= s[0]
            else:
                y /= s[0]
            res, inplace = y, True
            spec = prod if name == "imul" else INPL[name]
        elif name in ("asm", "ssm", "asd", "ssd"):
            f = {"asm": "add_scal_mul", "ssm": "sub_scal_mul", "asd": "add_scal_div", "ssd": "sub_scal_div"}[name]
            res = getattr(x[0], f)(x[1], SC(s[0], t))
            inplace = True
        elif name in ("addmul", "submul"):
            getattr(x[0], {"addmul": "add_mul", "submul": "sub_mul"}[name])(x[1], x[2])
            res, inplace = x[0], True
            spec = name + "_" + {"F": "T"}.get(kk, kk)
        elif name in ("mulsm", "mulsd"):
            getattr(x[0], {"mulsm": "mul_smul", "mulsd": "mul_sdiv"}[name])(x[1], SC(s[0], t))
            res, inplace = x[0], True
            spec = name + "_" + {"F": "T"}.get(kk, kk)
        elif name == "eq":
            query = True
            ev["res"] = bool(x[0] == x[1])
            ne = bool(x[0] != x[1])
            if ne == ev["res"]:
                raise drv.Unexpected("== and != agree")
        elif name == "pair":
            query, ev["res"] = True, num(x[0] @ x[1])
        elif name == "degree":
            query, ev["res"] = True, int(x[0].degree())
        elif name == "size":
            query, ev["res"] = True, int(x[0].size())
        elif name == "iszero":
            query, ev["res"] = True, bool(x[0].is_zero())
        elif name == "coeff":
            query = True
            if kk == "L":
                n = lsize(w, d)
                i = s[0] % n
                ev["key"] = [1, i]
                ev["op"] = "coeffL"
            else:
                i = s[0] % tsize(w, d)
                k = 0
                while i >= w ** k:
                    i -= w ** k
                    k += 1
                ev["key"] = [k, i]
                i = s[0] % tsize(w, d)
            b = ctx.lie_basis if kk == "L" else ctx.tensor_basis
            ev["res"] = num(x[0][b.index_to_key(i)])
        else:
            raise ValueError(name)
        if query:
            ev["op"] = ev.get("op", name)
            if name in ("size", "degree") and kk == "L":
                ev["op"] = name + "L"
            ev["obs"] = [observe(h) for h in sorted(set(a))]
        elif inplace:
            if res is not None and res is not x[0] and kk != "L":
                # the returned copy has the same value
                if tensor_levels(res, w, d, num, zero) != tensor_levels(x[0], w, d, num, zero):
                    raise drv.Unexpected("returned value differs")
            ev["op"], ev["r"] = spec, a[0]
            ev["obs"] = [observe(h) for h in sorted(set(a))]
        else:
            keep(res)
            kinds.append(kk)
            ev["op"], ev["r"] = spec, len(regs)
            ev["obs"] = [observe(h) for h in sorted(set(a) | {len(regs)})]
        rec.event(ev)
    if regs:
        # every register still has its value
        rec.event({"op": "show", "a": [], "s": [], "r": 0, "res": True,
                   "obs": [observe(h) for h in range(1, len(regs) + 1)]})


if __name__ == "__main__":
    drv.main(sys.modules["__main__"])
