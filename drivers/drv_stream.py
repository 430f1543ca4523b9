"""Random histories of queries to the real streams, recorded for
StreamTrace.tla.  Modes: query, chen, hist, conc, restrict, pw, tick, pickle,
ctx, deriv, fn, tv; "file:<path>" runs histories generated from the specification."""
import json
import os
import pickle
import sys
import threading
from fractions import Fraction

import numpy as np
import roughpy as rp

import drv
from drv import rat
from rplib import DT, VT, ctx_of, frac, tensor_levels, lie_coords

SHAPES = [(1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (4, 2), (5, 2), (2, 5)]
DEEP = [(1, 8), (2, 6), (2, 7), (3, 4)]
DIG = {"R": 0, "D": 8, "S": 3}
TNAME = {"R": "Rational", "D": "DPReal", "S": "SPReal"}
DTSTR = {"R": "Rational", "D": "f64", "S": "f32"}

_lsz = {}


def lsize(w, d):
    if (w, d) not in _lsz:
        _lsz[(w, d)] = ctx_of(w, d).lie_size(d)
    return _lsz[(w, d)]


F = Fraction


class Gen:
    """a program: list of operations on registers; register 0 is unused"""

    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode
        self.w, self.D = rng.choice(SHAPES if rng.random() < 0.95 or mode == "conc" else DEEP)
        if mode in ("tick", "fn"):
            self.D = rng.choice([1, 2, 2, 3])
        self.small = lsize(self.w, self.D) <= 14
        self.ops, self.regs = [], []
        self.t = "R" if rng.random() < (0.85 if mode != "ctx" else 0.6) else "D"
        self.hot = []        # interesting points

    # ------------------------------------------------------------ data
    def val(self):
        r = self.rng
        v = F(r.choice([-1, 1]) * r.randint(1, 6), r.choice([1, 1, 1, 2, 4]))
        return 0 if r.random() < 0.15 else v

    def coords(self, w, D, full=None):
        n = lsize(w, D)
        full = self.rng.random() < 0.5 if full is None else full
        v = [self.val() if (k < w or (full and self.rng.random() < 0.6)) else 0 for k in range(n)]
        return [rat(x) for x in v]

    def point(self):
        """some dyadic number"""
        r = self.rng
        m = r.choice([0, 0, 1, 2, 3, 4, 6])
        return F(r.randint(-2 * 2 ** m, 5 * 2 ** m), 2 ** m)

    def new(self, op, info):
        self.ops.append(op)
        self.regs.append(info)
        return len(self.regs)

    def streams(self, **kw):
        return [k + 1 for k, g in enumerate(self.regs) if g["k"] == "s" and all(g.get(a) == b for a, b in kw.items())]

    def answers(self, **kw):
        return [k + 1 for k, g in enumerate(self.regs) if g["k"] == "a" and all(g.get(a) == b for a, b in kw.items())]

    # --------------------------------------------------------- streams
    def inc(self):
        r = self.rng
        n = r.choice([1, 2, 3, 3, 4, 5, 6, 8])
        if self.small and r.random() < 0.1:
            n = r.choice([16, 24, 40])
        res = r.choice([-1, 0, 0, 1, 1, 2, 2, 3, 4])
        style = r.random()
        noind = False
        if style < 0.12:
            ts, res, noind = [F(k) for k in range(n)], 0, True
        elif style < 0.4:
            base = self.point()
            ts = [base + F(k, 2 ** max(res, 0)) for k in range(n)]
        else:
            ts = set()
            while len(ts) < n:
                m = r.choice([0, 1, 2, 3, 5])
                ts.add(F(r.randint(-2 * 2 ** m, 4 * 2 ** m), 2 ** m))
            ts = sorted(ts)
            if r.random() < 0.2:
                # several increments at one time
                ts = sorted(r.choice(ts) if r.random() < 0.4 else t for t in ts)
            if r.random() < 0.2:
                r.shuffle(ts)
        form = r.choice(["array", "list", "lie", "lie", "dict", "mix"])
        xs = [self.coords(self.w, self.D, False if form in ("array", "list") else None) for _ in ts]
        sup = None
        if r.random() < 0.15:
            a, b = sorted([self.point(), self.point()])
            if a < b:
                sup = [rat(a), rat(b)]
        self.hot += ts + [t + F(1, 2 ** max(res, 0)) for t in ts]
        lo, hi = (F(sup[0]), F(sup[1])) if sup else (min(ts), max(ts) + F(1) / F(2) ** res)
        return self.new({"op": "inc", "D": self.D, "res": res, "ts": [rat(t) for t in ts], "xs": xs, "form": form,
                         "noind": noind, "q": sup or [], "vt": r.choice("dds"), "t": self.t},
                        {"k": "s", "kind": "inc", "lo": lo, "hi": hi, "r": res, "D": self.D, "t": self.t})

    def pw(self):
        r = self.rng
        n = r.choice([1, 2, 3, 4])
        t = F(r.randint(-4, 4), r.choice([1, 2, 4]))
        ps = []
        for _ in range(n):
            if r.random() < 0.3:
                t += F(r.randint(1, 4), 4)
            ln = F(1) * F(2) ** r.choice([-3, -2, -1, 0, 0, 1])
            ps.append((t, t + ln))
            t += ln
        res = r.choice([0, 0, 0, 1, 2])
        self.hot += [x for p in ps for x in p] + [(p[0] + p[1]) / 2 for p in ps]
        return self.new({"op": "pw", "D": self.D, "res": res, "ts": [[rat(a), rat(b)] for a, b in ps],
                         "xs": [self.coords(self.w, self.D) for _ in ps], "q": [], "t": self.t, "vt": r.choice("ds"),
                         "giveres": res != 0},
                        {"k": "s", "kind": "pw", "lo": ps[0][0], "hi": ps[-1][1], "r": res, "D": self.D, "t": self.t})

    def fn(self):
        r = self.rng
        full = r.random() < 0.3
        poly = [self.coords(self.w, self.D, full) for _ in range(r.choice([1, 2, 2, 3]))]
        js = sorted(F(r.randint(-8, 12), r.choice([1, 2, 4])) for _ in range(r.choice([0, 0, 1, 2, 3])))
        res = r.choice([0, 0, 1, 2])
        lo = F(r.randint(-6, 2), 2)
        hi = lo + F(r.randint(1, 10), 2)
        if r.random() < 0.15:
            lo, hi = F(-100), F(100)
        self.hot += js + [F(0), F(0)]
        self.ops.append({"op": "fn", "D": self.D, "res": res, "ts": [rat(t) for t in js],
                         "xs": poly + [self.coords(self.w, self.D, full) for _ in js], "q": [rat(lo), rat(hi)],
                         "vt": r.choice("dds"), "t": self.t, "giveres": res != 0 or r.random() < 0.5,
                         "form": r.choice(["ctx", "parts"])})
        self.regs.append({"k": "s", "kind": "fn", "lo": lo, "hi": hi, "r": res, "D": self.D, "t": self.t,
                          "root": len(self.regs)})
        self.top = getattr(self, "top", {})
        self.top[len(self.regs) - 1] = -9
        return len(self.regs)

    def fnres(self, g, q, want=None):
        """a resolution (or the default) for a query of a function stream: unless it has depth one, cells that were
        evaluated are not given up for coarser ones, so later queries are not coarser"""
        r = self.rng
        a, b = (max(q[0], g["lo"]), min(q[1], g["hi"])) if q else (g["lo"], g["hi"])
        least = self.top[g["root"]] if g["D"] > 1 else -9
        m = max(least, r.choice([-1, 0, 0, 1, 1, 2, 2, 3, 4, g["r"]]) if want is None else want)
        if self.mode == "conc":
            m = g["r"] + 1
            if (b - a) * F(2) ** m > 20:
                return None
        while m > max(least, -2) and (b - a) * F(2) ** m > 20:
            m -= 1
        if (b - a) * F(2) ** m > 20:
            return None
        self.top[g["root"]] = max(self.top[g["root"]], m)
        return m

    def tv(self):
        r = self.rng
        if r.random() < 0.35:
            n = r.choice([1, 2, 3, 4])
            res = r.choice([0, 0, 1, 2, 3])
            ts = set()
            while len(ts) < n:
                m = r.choice([0, 1, 2, 3])
                ts.add(F(r.randint(-2 * 2 ** m, 4 * 2 ** m), 2 ** m))
            ts = sorted(ts)
            # the first value is the start: nothing may move in the cell it is in
            return self.new({"op": "tvfrom", "D": self.D, "res": res, "ts": [rat(t) for t in ts],
                             "xs": [self.coords(self.w, self.D) for _ in ts], "t": self.t, "q": [],
                             "form": r.choice(["lie", "ten", "mix"]), "shuf": r.random() < 0.3},
                            {"k": "v", "lo": ts[0], "hi": ts[-1] + F(1) / F(2) ** res, "r": res, "D": self.D,
                             "t": self.t, "kind": "inc"})
        while True:
            k = len(self.ops)
            h = self.stream(("inc", "inc", "pw", "fn"))
            if self.ops[-1]["op"] != "inc" or not self.ops[-1]["q"]:
                break
            del self.ops[k:], self.regs[k:]
        g = self.regs[h - 1]
        # the value moves over the whole of the base stream's time, so the domain is inside it
        a, b = sorted([self.near(g), self.near(g)])
        a, b = max(a, g["lo"]), min(b, g["hi"])
        if not a < b:
            a, b = g["lo"], g["hi"]
        if g["kind"] == "fn":
            self.top[g["root"]] = 99
            if (g["hi"] - g["lo"]) * 2 ** g["r"] > 20:
                b = min(b, a + 4)
        full = r.random() < 0.3
        ten = [[rat(self.val()) if d == 0 or r.random() < (0.6 if full else 0.15) else "0"
                for _ in range(self.w ** d)] for d in range(self.D + 1)]
        return self.new({"op": "tv", "a": [h], "q": [rat(a), rat(b)], "ten": ten, "vt": r.choice("dds")},
                        {"k": "v", "lo": a, "hi": b, "r": g["r"], "D": g["D"], "t": g["t"], "kind": g["kind"]})

    def tvuse(self, h):
        r = self.rng
        g = self.regs[h - 1]
        x = r.random()
        ans = {"k": "a", "l": False, "D": g["D"], "t": g["t"]}
        if x < 0.35:
            a, b = self.span(g)
            lo, hi = max(a, g["lo"]), min(b, g["hi"])
            if not lo < hi:
                return
            return self.new({"op": "tvq", "a": [h], "q": [rat(a), rat(b)]}, dict(g, lo=lo, hi=hi))
        if x < 0.5:
            return self.new({"op": "tvini", "a": [h]}, ans)
        if x < 0.75:
            return self.new({"op": "tvend", "a": [h]}, ans)
        if x < 0.8 and g["kind"] != "fn":
            return self.new({"op": "tvbase", "a": [h]}, {"k": "o"})
        a, b = self.span(g)
        a, b = max(a, g["lo"]), min(b, g["hi"])
        q = [] if not a < b or r.random() < 0.3 else [rat(a), rat(b)]
        res = 99 if g["kind"] == "fn" and g["D"] > 1 or r.random() < 0.3 else r.choice([0, 1, 2, 3])
        while res != 99 and res > 0 and (g["hi"] - g["lo"]) * 2 ** res > 24:
            res -= 1
        op = r.choice(["tvsig", "tvlog"])
        D = g["D"] if r.random() < 0.7 else r.randint(1, g["D"])
        return self.new({"op": op, "a": [h], "q": q, "res": res, "D": D, "t": g["t"]}, dict(ans, l=op == "tvlog", D=D))

    def label(self, k):
        r = self.rng
        x = r.random()
        if x < 0.5:
            return "c%d" % k
        if x < 0.7:
            return "ab%s" % ("z" * k)
        return "ab" + r.choice("._-/|;,@#=+*()! ") + "xyzw"[k] if k else "ab"

    def tick(self):
        r = self.rng
        while True:
            time = r.random() < 0.3
            width, chs = 0, []
            for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
                ty = r.choice(["inc", "val", "val", "ll", "cat", "cat"])
                vs = r.sample(["u", "v", "x", "yy"], r.randint(1, 3)) if ty == "cat" else []
                chs.append({"l": self.label(len(chs)), "ty": ty, "vs": vs})
            if len({c["l"] for c in chs}) < len(chs):
                continue
            infer = r.random() < 0.5 and not any(c["ty"] == "ll" for c in chs)
            n = r.choice([1, 2, 3, 4, 6, 9])
            many = self.small and r.random() < 0.12
            if many:
                n = r.choice([18, 30, 45])
            res = r.choice([0, 0, 1, 2, 3])
            ticks = []
            t = F(r.randint(0, 6), 2)
            t0 = t
            for k in range(n):
                c = r.choice(chs)
                x = r.choice(c["vs"]) if c["ty"] == "cat" else rat(self.val())
                ticks.append({"t": t, "l": c["l"], "ty": {"ll": "val"}.get(c["ty"], c["ty"]), "x": x})
                step = r.choice([0, 0, F(1, 8), F(1, 4), F(1, 2), 1, F(3, 2)])
                if many and r.random() < 0.7:
                    step = 0
                t += step
            if not time and r.random() < 0.3:
                # not in order of time
                tail = ticks[1:]
                r.shuffle(tail)
                ticks = ticks[:1] + tail
                if r.random() < 0.5:
                    r.shuffle(ticks)
            if infer:
                used, order = {}, []
                for k in ticks:
                    if k["l"] not in used:
                        used[k["l"]] = []
                        order.append(k["l"])
                    if k["ty"] == "cat" and k["x"] not in used[k["l"]]:
                        used[k["l"]].append(k["x"])
                width = sum(max(1, len(used[l])) for l in order)
            else:
                width = sum(len(c["vs"]) if c["ty"] == "cat" else 2 if c["ty"] == "ll" else 1 for c in chs)
            width += 1 if time else 0
            if time and not infer:
                continue          # a schema given is final: time can not be added
            if self.ops and width != self.w:
                continue
            D = self.D
            if width ** D > 5000 or lsize(width, D) > 60:
                continue
            break
        self.w = width
        sup = None
        first = ticks[0]["t"]
        rel = [k["t"] - first for k in ticks]
        self.hot += rel + [x + F(1, 2 ** res) for x in rel]
        lo = min([F(0)] + [F((x * 2 ** res) // 1, 2 ** res) for x in rel])
        hi = max([F(1)] + [F((x * 2 ** res) // 1, 2 ** res) + F(1, 2 ** res) for x in rel])
        if r.random() < 0.15:
            a, b = sorted([self.point(), self.point()])
            if a < b:
                sup, lo, hi = [rat(a), rat(b)], a, b
        tk = {"ch": chs if not infer else [], "infer": infer, "time": time,
              "ticks": [dict(k, t=rat(k["t"])) for k in ticks]}
        return self.new({"op": "tick", "D": D, "res": res, "tk": tk, "q": sup or [], "vt": r.choice("dds"), "t": self.t,
                         "form": r.choice(["list", "list", "dict", "nest", "dt"]),
                         "giveres": res != 0 or r.random() < 0.5, "givew": r.random() < 0.5,
                         "sform": r.choice(["parse", "obj", "seq"])},
                        {"k": "s", "kind": "tick", "lo": lo, "hi": hi, "r": res, "D": D, "t": self.t})

    def restr(self, h):
        g = self.regs[h - 1]
        r = self.rng
        nested = g.get("restricted")
        for _ in range(20):
            a, b = sorted([self.near(g), self.near(g)])
            if nested:
                a, b = max(a, g["lo"]), min(b, g["hi"])
            if a < b:
                break
        else:
            a, b = g["lo"], g["hi"]
        self.hot += [a, b]
        return self.new({"op": "restr", "a": [h], "q": [rat(a), rat(b)], "form": r.choice(["real", "real", "dy"])},
                        dict(g, lo=a, hi=b, restricted=True))

    def simp(self, h):
        g = self.regs[h - 1]
        r = self.rng
        m = r.choice([0, 1, 1, 2, 2, 3])
        # cuts with power of two distances, so that the pieces scale exactly
        a = F((self.near(g) * 2 ** m) // 1, 2 ** m)
        cuts = [a]
        for _ in range(r.randint(1, 5)):
            cuts.append(cuts[-1] + F(1, 2 ** m) * r.choice([1, 1, 1, 2, 4]))
        res = r.choice([99, m, m, m + 1, max(0, m - 1), 4])
        if g["kind"] == "fn":
            res = self.fnres(g, (cuts[0], cuts[-1]))
            if res is None:
                return
        D = g["D"] if g["kind"] == "fn" or r.random() < 0.7 or g["kind"] == "tick" else r.randint(1, g["D"] + 1)
        if lsize(self.w, D) > 60:
            D = g["D"]
        self.hot += cuts
        return self.new({"op": "simp", "a": [h], "ts": [rat(c) for c in cuts], "res": res, "D": D,
                         "form": r.choice(["depth", "ctx", "pos"])},
                        {"k": "s", "kind": "pw", "lo": cuts[0], "hi": cuts[-1], "r": g["r"] if res == 99 else res, "D": D,
                         "t": g["t"], "simp": True})

    def copy(self, h):
        return self.new({"op": "copy", "a": [h]}, dict(self.regs[h - 1]))

    def stream(self, kinds=("inc", "inc", "pw", "tick")):
        return getattr(self, self.rng.choice(kinds))()

    # --------------------------------------------------------- queries
    def near(self, g):
        r = self.rng
        x = r.random()
        span = g["hi"] - g["lo"]
        if x < 0.3 and self.hot:
            return r.choice(self.hot)
        if x < 0.45:
            return r.choice([g["lo"], g["hi"]])
        if x < 0.85:
            m = r.choice([0, 1, 2, 3, 4, 6])
            lo, hi = g["lo"] - span / 4, g["hi"] + span / 4
            return F(r.randint(int(lo * 2 ** m) - 1, int(hi * 2 ** m) + 1), 2 ** m)
        if x < 0.92 and self.hot:
            return r.choice(self.hot) + r.choice([-1, 1]) * F(1, 2 ** r.choice([2, 4, 7, 10]))
        return g["lo"] + span * F(r.randint(0, 64), 64)

    def span(self, g):
        for _ in range(30):
            a, b = sorted([self.near(g), self.near(g)])
            if float(a) != a or float(b) != b:
                continue
            if a < b or self.rng.random() < 0.1:
                return a, b
        return g["lo"], g["hi"]

    def query(self, h, q=None, res=None, D=None, op=None, t=None, form=None):
        r = self.rng
        g = self.regs[h - 1]
        if q is None:
            q = self.span(g) if r.random() < 0.93 else ()
        if res is None:
            res = 99 if r.random() < 0.4 else r.choice([g["r"], g["r"], g["r"] + 1, g["r"] - 1, 0, 1, 2, 3, 5, 7])
        # very fine dissections of long intervals are slow
        span = (min(q[1], g["hi"]) - max(q[0], g["lo"])) if q else g["hi"] - g["lo"]
        if res != 99 and span > 0:
            while res > 0 and span * 2 ** res > 4096:
                res -= 1
        if g["kind"] == "fn":
            res = self.fnres(g, q, None if res == 99 else res)
            if res is None:
                return
        if D is None:
            D = g["D"]
            if r.random() < 0.2 and not self.mode == "conc":
                D = r.randint(1, g["D"] + (0 if g["kind"] in ("tick", "fn") else 1))
        if t is None:
            t = g["t"] if r.random() < (0.9 if self.mode != "ctx" else 0.5) else r.choice("RD")
        if lsize(self.w, D) > 60:
            D = g["D"]
        op = op or r.choice(["lsig", "lsig", "sig"])
        forms = ["iv", "pair", "sub"]
        if q and res != 99 and (q[0] * 2 ** 6).denominator == 1 and r.random() < 0.2:
            forms.append("dy")
        return self.new({"op": op, "a": [h], "q": [rat(x) for x in q], "res": res, "D": D, "t": t,
                         "form": form or r.choice(forms), "rform": r.choice(["pos", "kw", "float"]),
                         "cform": r.choice(["ctx", "parts", "npd"])},
                        {"k": "a", "l": op == "lsig", "D": D, "t": t, "g": g})

    def mutate(self):
        r = self.rng
        a = self.answers()
        if not a:
            return
        h = r.choice(a)
        g = self.regs[h - 1]
        op = r.choice(["scale", "plus", "clear"])
        if op == "scale":
            self.ops.append({"op": "scale", "a": [h], "r": h, "c": r.choice(["2", "-3", "5"])})
        elif op == "plus":
            o = r.choice(self.answers(l=g["l"], D=g["D"], t=g["t"]))
            self.ops.append({"op": "plus", "a": [h, o], "r": h})
        else:
            self.ops.append({"op": "clear", "a": [h], "r": h})

    def deriv(self, h):
        r = self.rng
        g = self.regs[h - 1]
        D = g["D"]
        if r.random() < 0.2 and g["kind"] != "tick":
            D = max(1, g["D"] - 1)
        n = r.choice([1, 1, 2, 3])
        qs = []
        if n == 1:
            qs = [self.span(g)]
        else:
            pts = sorted({self.near(g) for _ in range(n + 1)})
            qs = list(zip(pts, pts[1:]))
        if not qs:
            qs = [(g["lo"], g["hi"])]
        form = r.choice(["one", "tuple", "list"]) if len(qs) == 1 else "list"
        res = r.choice([99, g["r"], g["r"] + 1, 2, 3])
        if g["kind"] == "fn":
            res = self.fnres(g, (g["lo"], g["hi"]))
            if res is None:
                return
        return self.new({"op": "deriv", "a": [h], "qs": [[rat(a), rat(b)] for a, b in qs],
                         "xs": [self.coords(self.w, D) for _ in qs], "res": res, "D": D, "t": g["t"], "form": form,
                         "pd": True},
                        {"k": "a", "l": False, "D": D, "t": g["t"], "g": g})

    # -------------------------------------------------------- programs
    def program(self):
        r, mode = self.rng, self.mode
        if mode == "query":
            h = self.stream(("inc", "inc", "inc", "pw"))
            for _ in range(r.randint(2, 6)):
                self.query(h)
        elif mode == "chen":
            h = self.stream(("inc", "inc", "pw", "tick", "fn"))
            g = self.regs[h - 1]
            for _ in range(r.randint(1, 2)):
                res = r.choice([0, 1, 2, 3, g["r"], g["r"] + 1])
                base = F((g["lo"] * F(2) ** res) // 1) / F(2) ** res
                n = max(1, min(200, int((g["hi"] - base) * F(2) ** res) + 1))
                pts = sorted(r.randint(-1, n + 1) for _ in range(3))
                if r.random() < 0.6:
                    pts = sorted([0, r.randint(0, n), n])
                a, b, c = [base + F(p) / F(2) ** res for p in pts]
                op = r.choice(["sig", "sig", "lsig"])
                t = g["t"]
                kw = {"res": res, "D": g["D"], "op": op, "t": t}
                x = self.query(h, q=(a, b), **kw)
                y = self.query(h, q=(b, c), **kw)
                z = self.query(h, q=(a, c), **kw)
                if not (x and y and z):
                    continue
                if op == "sig":
                    self.new({"op": "tmul", "a": [x, y]}, dict(self.regs[x - 1]))
                else:
                    self.new({"op": "cbh", "a": [x, y], "D": g["D"], "t": t}, dict(self.regs[x - 1]))
        elif mode == "hist":
            h = self.stream(("inc", "inc", "tick", "pw"))
            g = self.regs[h - 1]
            pool = [self.span(g) for _ in range(r.randint(1, 3))]
            for _ in range(r.randint(6, 12)):
                x = r.random()
                hs = self.streams()
                if x < 0.1 and len(hs) < 4:
                    self.restr(r.choice(hs))
                elif x < 0.17 and len(hs) < 4:
                    self.copy(r.choice(self.streams(kind="inc") or hs)) if self.regs[h - 1]["kind"] == "inc" else None
                elif x < 0.4:
                    self.mutate()
                else:
                    s = r.choice(hs)
                    self.query(s, q=r.choice(pool) if r.random() < 0.7 else None,
                               res=r.choice([99, g["r"], g["r"] + 1, g["r"] + 2]))
        elif mode == "conc":
            h = self.stream(("inc", "inc", "tick", "pw", "fn"))
            hs = [h]
            if r.random() < 0.4:
                hs.append(self.restr(h))
            if r.random() < 0.3 and self.regs[h - 1]["kind"] == "inc":
                hs.append(self.copy(h))
            k = len(self.ops)
            pool = [self.span(self.regs[h - 1]) for _ in range(3)]
            for _ in range(r.choice([6, 9, 12])):
                self.query(r.choice(hs), q=r.choice(pool) if r.random() < 0.7 else None)
            if len(self.ops) > k:
                self.ops[k]["fork"] = len(self.ops) - k
                # every thread asks its questions again and again
                self.ops[k]["reps"] = r.choice([1, 1, 10, 25])
        elif mode == "restrict":
            h = self.stream(("inc", "inc", "pw", "tick", "fn"))
            x = self.restr(h)
            y = self.restr(x) if r.random() < 0.5 else None
            for _ in range(r.randint(2, 5)):
                self.query(r.choice([h, x, x, x] + ([y, y] if y else [])))
        elif mode == "pw":
            h = self.stream(("pw", "pw", "inc", "tick"))
            if r.random() < 0.7 or self.regs[h - 1]["kind"] != "pw":
                x = self.simp(h)
                if r.random() < 0.2:
                    self.restr(x)
                if r.random() < 0.2:
                    self.simp(x)
            for _ in range(r.randint(2, 5)):
                self.query(r.choice(self.streams(kind="pw")))
        elif mode == "tick":
            h = self.tick()
            for _ in range(r.randint(1, 4)):
                self.query(h)
        elif mode == "pickle":
            h = self.stream(("inc",))
            if r.random() < 0.4:
                h = self.restr(h)
            if r.random() < 0.6:
                self.query(h)
            c = self.copy(h)
            for _ in range(r.randint(1, 4)):
                x = r.random()
                if x < 0.2:
                    self.mutate()
                elif x < 0.3:
                    c = self.copy(c)
                elif x < 0.4:
                    self.restr(r.choice([h, c]))
                self.query(r.choice([h, c, c]))
        elif mode == "ctx":
            h = self.stream()
            if r.random() < 0.2:
                h = self.simp(h)
            g = self.regs[h - 1]
            q = self.span(g)
            for _ in range(r.randint(2, 5)):
                D = r.randint(1, g["D"] + (0 if g["kind"] == "tick" else 1))
                self.query(h, q=q if r.random() < 0.7 else None, D=D)
        elif mode == "fn":
            h = self.fn()
            for _ in range(r.randint(2, 7)):
                x = r.random()
                hs = self.streams()
                if x < 0.1 and len(hs) < 3:
                    self.restr(h)
                elif x < 0.15 and len(hs) < 3:
                    self.simp(h)
                elif x < 0.2:
                    self.deriv(h)
                elif x < 0.3:
                    # the function fails once
                    if self.query(r.choice(self.streams(kind="fn"))):
                        self.ops[-1]["fail"] = r.choice([1, 1, 2, 3, 5])
                elif x < 0.4:
                    self.mutate()
                else:
                    self.query(r.choice(hs))
        elif mode == "tv":
            self.tv()
            for _ in range(r.randint(2, 7)):
                self.tvuse(r.choice([k + 1 for k, g in enumerate(self.regs) if g["k"] == "v"]))
        elif mode == "deriv":
            h = self.stream()
            for _ in range(r.randint(1, 3)):
                self.deriv(h)
            if r.random() < 0.3:
                self.query(h)
        return {"w": self.w, "ops": self.ops}


def programs(rng, n, mode):
    if mode.startswith("file:"):
        return [json.loads(x) for x in open(mode[5:])]
    return [Gen(rng, mode).program() for _ in range(n)]


# ------------------------------------------------------------------ execution
def fl(x):
    return float(Fraction(x))


def iv(a, b):
    return rp.RealInterval(fl(a), fl(b))


def lie_obj(v, ctx, vt="d"):
    n = len(v)
    while n > 1 and v[n - 1] == "0":
        n -= 1
    return rp.Lie([num(x) for x in v[:n]], ctx=ctx, vector_type=VT[vt])


def num(x):
    f = Fraction(x)
    return f.numerator if f.denominator == 1 else float(f)


def make_inc(o, w):
    ctx = ctx_of(w, o["D"], o["t"])
    kw = {"ctx": ctx, "vtype": VT[o["vt"]]}
    if not o["noind"]:
        kw["indices"] = [fl(t) for t in o["ts"]] if len(o["ts"]) % 2 else np.array([fl(t) for t in o["ts"]])
        kw["resolution"] = o["res"]
    if o["q"]:
        kw["support"] = iv(*o["q"])
    if o["form"] == "lie":
        data = [lie_obj(v, ctx, "ds"[k % 2]) for k, v in enumerate(o["xs"])]
    elif o["form"] == "dict":
        data = [{i: fl(x) for i, x in enumerate(v) if x != "0" or i == 0} for v in o["xs"]]
    elif o["form"] == "mix":
        data = [[[fl(x) for x in v], lie_obj(v, ctx, "s"), {i: fl(x) for i, x in enumerate(v) if x != "0" or i == 0},
                 [(i, fl(x)) for i, x in enumerate(v) if x != "0" or i == 0][::-1], np.array([fl(x) for x in v])]
                [k % 5] for k, v in enumerate(o["xs"])]
    else:
        data = [[fl(x) for x in v[:w]] for v in o["xs"]]
        if o["form"] == "array":
            data = np.array(data)
    return rp.LieIncrementStream.from_increments(data, **kw)


def make_pw(o, w):
    ctx = ctx_of(w, o["D"], o["t"])
    kw = {"ctx": ctx, "vtype": VT[o["vt"]]}
    if o["giveres"]:
        kw["resolution"] = o["res"]
    return rp.PiecewiseAbelianStream.construct([(iv(*t), lie_obj(v, ctx)) for t, v in zip(o["ts"], o["xs"])], **kw)


class Fails(Exception):
    pass


def make_fn(o, w):
    ctx = ctx_of(w, o["D"], o["t"])
    n = len(o["xs"]) - len(o["ts"])
    poly = [[F(x) for x in v] for v in o["xs"][:n]]
    jumps = [(F(t), [F(x) for x in v]) for t, v in zip(o["ts"], o["xs"][n:])]
    state = {"fail": 0}

    def f(t, c):
        if (c.width, c.depth) != (w, o["D"]):
            raise drv.Unexpected("context given to the function")
        if state["fail"]:
            state["fail"] -= 1
            if state["fail"] == 0:
                raise Fails()
        t = F(t)
        v = poly[-1]
        for p in poly[-2::-1]:
            v = [t * x + y for x, y in zip(v, p)]
        for c0, p in jumps:
            if c0 <= t:
                v = [x + y for x, y in zip(v, p)]
        return rp.Lie([num(x) for x in v], ctx=c)

    kw = {"ctx": ctx} if o["form"] == "ctx" else {"width": w, "depth": o["D"], "dtype": DT[o["t"]]}
    if o["giveres"]:
        kw["resolution"] = o["res"]
    x = rp.FunctionStream.from_function(f, support=iv(*o["q"]), vtype=VT[o["vt"]], **kw)
    FAIL[id(x)] = state
    return x


FAIL = {}


def make_tensor(ten, ctx, vt="d"):
    flat = [x for lev in ten for x in lev]
    n = len(flat)
    while n > 1 and flat[n - 1] == "0":
        n -= 1
    return rp.FreeTensor([num(x) for x in flat[:n]], ctx=ctx, vector_type=VT[vt])


TYPES = {"inc": "increment", "val": "value", "cat": "categorical"}


def make_tick(o, w):
    tk = o["tk"]
    kw = {"dtype": DT[o["t"]], "depth": o["D"], "vtype": VT[o["vt"]]}
    if o["giveres"]:
        kw["resolution"] = o["res"]
    if o["givew"]:
        kw["width"] = w
    if tk["time"]:
        kw["include_time"] = True
    if o["q"]:
        kw["support"] = iv(*o["q"])
    if not tk["infer"]:
        opt = {"inc": lambda c: {}, "val": lambda c: {}, "ll": lambda c: {"lead_lag": True},
               "cat": lambda c: {"categories": c["vs"]}}
        sch = [(c["l"], {"ll": "value"}.get(c["ty"]) or TYPES[c["ty"]], opt[c["ty"]](c)) for c in tk["ch"]]
        if o["sform"] == "parse":
            kw["schema"] = rp.StreamSchema.parse(sch)
        elif o["sform"] == "obj":
            kw["schema"] = {l: dict(op, type=ty) for l, ty, op in sch}
        else:
            kw["schema"] = sch
    conv = {"cat": lambda x: x}
    ticks = [(fl(k["t"]), k["l"], TYPES[k["ty"]], conv.get(k["ty"], num)(k["x"])) for k in tk["ticks"]]
    form = o["form"]
    if form == "dt":
        import datetime as dtm
        t0 = dtm.datetime(2021, 2, 27, 23, 59, 58)
        data = [(t0 + dtm.timedelta(seconds=t), l, ty, x) for t, l, ty, x in ticks]
    elif form in ("dict", "nest") and all(ticks[i][0] <= ticks[i + 1][0] for i in range(len(ticks) - 1)):
        data = {}
        for t, l, ty, x in ticks:
            data.setdefault(t, []).append((l, ty, x) if form == "dict" else {"label": l, "type": ty, "data": x})
    else:
        data = ticks
    return rp.TickStream.from_data(data, **kw)


def tname(ct):
    for k, v in DT.items():
        if v == ct:
            return k
    return str(ct)


def run_query(o, x, w):
    f = getattr(x, "log_signature" if o["op"] == "lsig" else "signature")
    args, kw = [], {}
    q = o["q"]
    if q:
        if o["form"] == "pair":
            args = [fl(q[0]), fl(q[1])]
        elif o["form"] == "sub":
            args = [rp.RealInterval(rp.RealInterval(fl(q[0]), fl(q[1])))] if False else [iv(*q)]
        else:
            args = [iv(*q)]
        if o["res"] != 99:
            res = 2.0 ** -o["res"] if o["rform"] == "float" and o["res"] >= -5 else o["res"]
            if o["rform"] == "kw" or o["form"] == "pair":
                kw["resolution"] = res
            else:
                args.append(res)
    elif o["res"] != 99:
        if o["rform"] == "kw":
            kw["resolution"] = o["res"]
        else:
            args = [o["res"]]
    if (o["D"], o["t"]) != (x.ctx.depth, tname(x.dtype)):
        if o["cform"] == "ctx":
            kw["ctx"] = ctx_of(w, o["D"], o["t"])
        else:
            if o["D"] != x.ctx.depth:
                kw["depth"] = o["D"]
            if o["t"] != tname(x.dtype):
                kw["dtype"] = DTSTR[o["t"]] if o["cform"] == "parts" or o["t"] == "R" else np.dtype(
                    {"D": "float64", "S": "float32"}[o["t"]])
    return f(*args, **kw)


def execute(desc, rec):
    w = desc["w"]
    ds = set()
    for o in desc["ops"]:
        if "D" in o:
            ds.add(o["D"])
    rec.header(w=w, ds=sorted(ds))
    regs, inexact = [], []

    def read(x):
        return lie_coords(x, x.context) if isinstance(x, rp.Lie) else tensor_levels(x, w, x.context.depth)

    def observe(h):
        x = regs[h - 1]
        if isinstance(x, rp.TensorValuedStream):
            v = x.initial_value()
            return {"h": h, "k": "v", "lo": rat(x.domain().inf()), "hi": rat(x.domain().sup()), "r": 0, "w": w,
                    "D": v.context.depth, "t": tname(v.dtype), "l": False, "dig": inexact[h - 1], "v": read(v)}
        if isinstance(x, rp.Stream):
            return {"h": h, "k": "s", "lo": rat(x.support.inf()), "hi": rat(x.support.sup()), "r": x.resolution,
                    "w": x.width, "D": x.ctx.depth, "t": tname(x.dtype), "l": False, "dig": 0, "v": []}
        D, t = x.context.depth, tname(x.dtype)
        l = isinstance(x, rp.Lie)
        if x.context.width != w:
            raise drv.Unexpected("width of answer")
        return {"h": h, "k": "a", "l": l, "D": D, "t": t, "lo": "", "hi": "", "r": 0, "w": w,
                "dig": inexact[h - 1],
                "v": read(x)}

    def digits(x, t):
        """answers of streams or to queries in floating point are rounded"""
        a = max(DIG[t], DIG[tname(x.dtype)])
        b = min(DIG[t] or 99, DIG[tname(x.dtype)] or 99)
        return 0 if a == 0 else b

    def event(o, **kw):
        ev = {"op": o["op"], "a": o.get("a", []), "q": o.get("q", []), "res": o.get("res", 99), "D": o.get("D", 0),
              "ts": o.get("ts", []), "xs": o.get("xs", []), "qs": o.get("qs", []), "c": o.get("c", "0"),
              "tk": o.get("tk", ""), "ten": o.get("ten", []), "pd": o.get("pd", False), "t": o.get("t", "R")}
        ev.update(kw)
        return ev

    def call(o, x):
        op = o["op"]
        if op == "inc":
            return make_inc(o, w)
        if op == "pw":
            return make_pw(o, w)
        if op == "tick":
            return make_tick(o, w)
        if op == "restr":
            a, b = Fraction(o["q"][0]), Fraction(o["q"][1])
            ln = b - a
            if o["form"] == "dy" and (ln.numerator == 1 or ln.denominator == 1) and (ln.numerator & (ln.numerator - 1)) == 0 \
                    and (a / ln).denominator == 1:
                n = ln.denominator.bit_length() - 1 if ln.numerator == 1 else -(ln.numerator.bit_length() - 1)
                return x[0].restrict(rp.DyadicInterval(int(a / ln), n))
            return x[0].restrict(iv(*o["q"]))
        if op == "simp":
            part = rp.Partition(iv(o["ts"][0], o["ts"][-1]), [fl(c) for c in o["ts"][1:-1]])
            kw = {}
            if o["res"] != 99:
                kw["resolution"] = o["res"]
            if o["D"] != x[0].ctx.depth:
                if o["form"] == "ctx":
                    kw["ctx"] = ctx_of(w, o["D"], tname(x[0].dtype))
                else:
                    kw["depth"] = o["D"]
            if o["form"] == "pos" and "resolution" in kw:
                return x[0].simplify(part, kw.pop("resolution"), **kw)
            return x[0].simplify(part, **kw)
        if op == "fn":
            return make_fn(o, w)
        if op == "tv":
            return rp.TensorValuedStream(increment_stream=x[0], initial_value=make_tensor(o["ten"], x[0].ctx, o["vt"]),
                                         domain=iv(*o["q"]))
        if op == "tvfrom":
            ctx = ctx_of(w, o["D"], o["t"])
            vals = []
            for k, (t, v) in enumerate(zip(o["ts"], o["xs"])):
                l = lie_obj(v, ctx)
                vals.append((fl(t), l if o["form"] == "lie" or o["form"] == "mix" and k % 2 else ctx.lie_to_tensor(l).exp()))
            if o["shuf"]:
                vals = vals[1:] + vals[:1]
            return rp.TensorValuedStream.from_values(vals, ctx=ctx, resolution=o["res"])
        if op == "tvq":
            return x[0].query(iv(*o["q"]))
        if op == "tvini":
            return x[0].initial_value()
        if op == "tvend":
            return x[0].terminal_value()
        if op == "tvbase":
            return x[0].increment_stream()
        if op in ("tvsig", "tvlog"):
            f = x[0].signature if op == "tvsig" else x[0].log_signature
            args = [iv(*o["q"])] if o["q"] else []
            kw = {}
            if o["res"] != 99:
                kw["resolution"] = o["res"]
            if o["D"] != x[0].initial_value().context.depth:
                kw["depth"] = o["D"]
            return f(*args, **kw)
        if op == "copy":
            return pickle.loads(pickle.dumps(x[0]))
        if op in ("lsig", "sig"):
            return run_query(o, x[0], w)
        if op == "deriv":
            ctx = ctx_of(w, o["D"], o["t"])
            ps = [lie_obj(v, ctx) for v in o["xs"]]
            kw = {} if o["D"] == x[0].ctx.depth else {"depth": o["D"]}
            ivs = [iv(*q) for q in o["qs"]]
            rs = [] if o["res"] == 99 else [o["res"]]
            if o["form"] == "one":
                return x[0].signature_derivative(ivs[0], ps[0], *rs, **kw)
            if o["form"] == "tuple":
                return x[0].signature_derivative((ivs[0], ps[0]), *rs, **kw)
            return x[0].signature_derivative(list(zip(ivs, ps)), *rs, **kw)
        if op == "tmul":
            return x[0] * x[1]
        if op == "cbh":
            return ctx_of(w, o["D"], o["t"]).cbh(x)
        raise ValueError(op)

    def inexactness(o, x):
        if o["op"] in ("lsig", "sig", "deriv"):
            return digits(x[0], o["t"])
        if o["op"] in ("tv", "tvfrom"):
            return DIG[o["t"]] if o["op"] == "tvfrom" else DIG[tname(x[0].dtype)]
        if o["op"] in ("tvq", "tvini", "tvend", "tvsig", "tvlog"):
            return max(inexact[h - 1] for h in o["a"])
        if o["op"] in ("tmul", "cbh"):
            return max(inexact[h - 1] for h in o["a"])
        return 0

    ops = desc["ops"]
    k = 0
    while k < len(ops):
        o = ops[k]
        if o.get("fork"):
            n = o["fork"]
            batch = ops[k:k + n]
            nthreads = min(6, n)
            results = [None] * n
            rec.begin(event(o))
            start = threading.Barrier(nthreads)

            def work(j):
                start.wait()
                for rep in range(o.get("reps", 1)):
                    for i in range(j, n, nthreads):
                        try:
                            x = call(batch[i], [regs[h - 1] for h in batch[i]["a"]])
                            # another answer than before replaces it
                            if rep == 0 or not isinstance(results[i], Exception) and x != results[i]:
                                results[i] = x
                        except Exception as exc:  # noqa: BLE001
                            results[i] = exc
            ths = [threading.Thread(target=work, args=(j,)) for j in range(nthreads)]
            for th in ths:
                th.start()
            for th in ths:
                th.join()
            for b, res in zip(batch, results):
                if isinstance(res, Exception):
                    raise res
                regs.append(res)
                inexact.append(inexactness(b, [regs[h - 1] for h in b["a"]]))
                rec.event(event(b, r=len(regs), obs=[observe(len(regs))]))
            k += n
            continue
        k += 1
        a = o.get("a", [])
        x = [regs[h - 1] for h in a]
        rec.begin(event(o))
        if o["op"] in ("scale", "plus", "clear"):
            y = x[0]
            if o["op"] == "scale":
                y *= num(o["c"])
            elif o["op"] == "plus":
                y += x[1]
                inexact[a[0] - 1] = max(inexact[h - 1] for h in a)
            else:
                y -= y
            if y is not x[0] and read(y) != read(x[0]):
                raise drv.Unexpected("in place operation returned another value")
            rec.event(event(o, r=a[0], obs=[observe(h) for h in sorted(set(a))]))
            continue
        if o.get("fail"):
            # the function fails in the middle of this query, which tells so; then it is asked again
            st = FAIL[id(x[0])] if id(x[0]) in FAIL else FAIL[id(regs[0])]
            st["fail"] = o["fail"]
            try:
                call(o, x)
            except Fails:
                pass
            except Exception as exc:  # noqa: BLE001
                if "Fails" not in str(exc):
                    raise
            st["fail"] = 0
        res = call(o, x)
        regs.append(res)
        inexact.append(inexactness(o, x))
        rec.event(event(o, r=len(regs), obs=[observe(h) for h in sorted(set(a) | {len(regs)})]))
    # every stream and every answer is still what it was
    rec.event(event({"op": "look", "a": [1]}, r=1, obs=[observe(h) for h in range(1, len(regs) + 1)]))


if __name__ == "__main__":
    drv.main(sys.modules["__main__"])
