"""Questions to the real bases, keys and key iterators, recorded for
BasesTrace.tla.  Modes: tensor, lie, sizes, and py/... (none)."""
import sys

import roughpy as rp

import drv
from rplib import ctx_of

TSH = [(1, 1), (1, 5), (2, 1), (2, 2), (2, 3), (2, 5), (2, 8), (3, 2), (3, 3), (3, 5), (4, 2), (4, 4), (5, 3), (7, 2),
       (9, 3), (10, 2), (16, 2), (33, 2), (100, 2), (2, 12), (255, 1)]
LSH = [(1, 1), (1, 4), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 8), (2, 9), (3, 2), (3, 3), (3, 4), (3, 5),
       (3, 6), (4, 2), (4, 3), (4, 4), (5, 2), (5, 3), (6, 3), (7, 2), (8, 3), (10, 2), (15, 2)]
BIG = [(2, 14), (2, 16), (3, 9), (3, 10), (4, 7), (5, 6), (6, 5), (7, 5), (10, 4), (12, 3), (20, 3), (30, 2), (60, 2),
       (1, 9), (2, 11), (3, 8), (25, 1), (300, 1)]


def wcount(w, d):
    return sum(w ** k for k in range(d + 1))


class Gen:
    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode
        self.w, self.d = rng.choice({"tensor": TSH, "lie": LSH, "sizes": BIG}[mode])

    def word(self, hi=None):
        r = self.rng
        n = r.randint(0, self.d if hi is None else hi)
        x = r.random()
        if x < 0.15:
            return [self.w] * n
        if x < 0.25:
            return [1] * n
        return [r.randint(1, self.w) for _ in range(n)]

    def tensor(self):
        r = self.rng
        n = wcount(self.w, self.d)
        op = r.choice(["dim", "size", "word", "word", "word", "index", "index", "index", "degree", "str", "mul", "mul",
                       "mul", "rev", "split", "split", "parents", "parents", "eq", "iter", "iter", "all"])
        e = {"op": op, "x": [], "y": [], "n": 0, "n2": 0, "f": r.choice("abc")}
        if op == "size":
            e["n"] = r.randint(0, self.d)
        elif op == "word":
            e["n"] = r.choice([r.randrange(n), r.randrange(n), n - 1, 0, wcount(self.w, r.randint(0, self.d)) - 1])
        elif op == "mul":
            e["x"] = self.word()
            e["y"] = self.word(self.d - len(e["x"]))
        elif op == "parents":
            e["x"] = self.word() or [r.randint(1, self.w)]
        elif op == "eq":
            e["x"] = self.word()
            e["y"] = list(e["x"]) if r.random() < 0.5 else self.word()
        elif op == "iter":
            a = r.randrange(n)
            e["n"], e["n2"] = a, min(n, a + r.randint(0, 25))
        elif op == "all":
            if n > 400:
                return self.tensor()
            e["op"], e["f"], e["n2"] = "iter", "basis", n
        else:
            e["x"] = self.word()
            e["n"] = r.randint(-1, self.d + 2)
        return e

    def tree(self, n):
        """a bracket of n letters (nested lists)"""
        r = self.rng
        if n == 1:
            return [r.randint(1, self.w)]
        k = r.randint(1, n - 1)
        return [self.tree(k), self.tree(n - k)]

    def lie(self):
        r = self.rng
        n = ctx_of(self.w, self.d).lie_size(self.d)
        op = r.choice(["ldim", "lsize", "lkey", "lkey", "lindex", "lindex", "lparents", "lparents", "lstr", "lnumber",
                       "liter", "liter", "all"])
        e = {"op": op, "x": [], "y": [], "n": 0, "n2": 0, "f": r.choice("abc")}
        if op == "lsize":
            e["n"] = r.randint(0, self.d)
        elif op in ("lkey", "lindex", "lparents", "lnumber"):
            e["n"] = r.choice([r.randrange(n), r.randrange(n), n - 1])
        elif op == "lstr":
            e["x"] = self.tree(r.randint(1, max(1, self.d)))
        elif op == "liter":
            a = r.randint(1, n)
            e["n"], e["n2"] = a, min(n, a + r.randint(-1, 25))
        elif op == "all":
            e["op"], e["n"], e["n2"], e["f"] = "liter", 1, n, "basis"
        return e

    def sizes(self):
        r = self.rng
        return {"op": r.choice(["dim", "size", "ldim", "lsize"]), "x": [], "y": [], "n": r.randint(0, self.d), "n2": 0,
                "f": r.choice("abc")}

    def program(self):
        m = self.rng.randint(3, 14)
        f = getattr(self, self.mode)
        return {"w": self.w, "d": self.d, "lie": self.mode == "lie", "ops": [f() for _ in range(m)]}


def programs(rng, n, mode):
    return [Gen(rng, mode).program() for _ in range(n)]


# ------------------------------------------------------------------ execution
def nested(t):
    return t[0] if len(t) == 1 else [nested(t[0]), nested(t[1])]


def unnest(s):
    """nested pairs of the printed form of a bracket"""
    def go(k):
        if s[k] != "[":
            j = k
            while j < len(s) and s[j].isdigit():
                j += 1
            return [int(s[k:j])], j
        a, k = go(k + 1)
        b, k = go(k + 1)
        return [a, b], k + 1
    return go(0)[0]


def execute(desc, rec):
    w, d = desc["w"], desc["d"]
    rec.header(w=w, d=d, lie=desc["lie"])
    ctx = ctx_of(w, d)
    tb, lb = ctx.tensor_basis, ctx.lie_basis

    def tk(x, f):
        if f == "a":
            return rp.TensorKey(x, width=w, depth=d)
        if f == "b":
            return rp.TensorKey(*x, width=w, depth=d)
        i = 0
        for c in x:
            i = i * w + c
        return tb.index_to_key(i)

    def letters(k):
        return list(k.to_letters())

    for o in desc["ops"]:
        rec.begin(o)
        op, f, x, n = o["op"], o["f"], o["x"], o["n"]
        e = dict(o)
        if op == "dim":
            res = {"a": lambda: tb.dimension, "b": lambda: ctx.tensor_size(d), "c": lambda: tb.size(-1)}[f]()
        elif op == "ldim":
            res = {"a": lambda: lb.dimension, "b": lambda: ctx.lie_size(d), "c": lambda: lb.size(-1)}[f]()
        elif op == "size":
            res = tb.size(n) if f == "a" else ctx.tensor_size(n)
        elif op == "lsize":
            res = lb.size(n) if f == "a" else ctx.lie_size(n)
        elif op == "word":
            k = rp.TensorKey(index=n, width=w, depth=d) if f == "a" and w > 1 else tb.index_to_key(n)
            res = letters(k)
        elif op == "degree":
            res = tk(x, f).degree()
        elif op == "index":
            k = tk(x, f if f != "c" else "a")
            res = k.to_index() if f == "a" else tb.key_to_index(k)
        elif op == "str":
            res = str(tk(x, f)) if f != "b" else repr(tk(x, f))
        elif op == "mul":
            res = letters(tk(x, f) * tk(o["y"], f))
        elif op == "rev":
            res = letters(tk(x, f).reverse())
        elif op == "split":
            res = [letters(k) for k in tk(x, f).split_n(n)]
        elif op == "parents":
            res = [letters(k) for k in tb.parents(tk(x, f))]
        elif op == "eq":
            a, b = tk(x, f), tk(o["y"], "a")
            res = bool(a == b)
            if res and hash(a) != hash(b):
                raise drv.Unexpected("equal keys with different hashes")
            if bool(a != b) == res:
                raise drv.Unexpected("== and != agree")
        elif op == "iter":
            if f == "basis":
                it = iter(tb)
            elif o["n2"] < wcount(w, d):
                it = rp.TensorKeyIterator(tb.index_to_key(n), tb.index_to_key(o["n2"]))
            else:
                it = rp.TensorKeyIterator(tb.index_to_key(n))
            res = [letters(k) for k in it]
        elif op == "lkey":
            res = str(lb.index_to_key(n))
        elif op == "lindex":
            res = lb.key_to_index(lb.index_to_key(n))
        elif op == "lparents":
            res = [str(k) for k in lb.parents(lb.index_to_key(n))]
        elif op == "lstr":
            t = nested(x)
            res = str(rp.LieKey(t, basis=lb) if f != "b" else rp.LieKey(t, width=w, depth=d))
        elif op == "lnumber":
            e["x"] = unnest(str(lb.index_to_key(n)))
            t = nested(e["x"])
            res = lb.key_to_index(rp.LieKey(t, basis=lb) if f != "b" else rp.LieKey(t, width=w, depth=d))
        elif op == "liter":
            if f == "basis":
                it = iter(lb)
            elif o["n2"] == lb.dimension and f == "a":
                it = rp.LieKeyIterator(lb, n) if n > 1 else rp.LieKeyIterator(lb)
            else:
                it = rp.LieKeyIterator(lb, n, o["n2"])
            res = [str(k) for k in it]
        else:
            raise ValueError(op)
        e["res"] = res
        rec.event(e)


if __name__ == "__main__":
    drv.main(sys.modules["__main__"])
