"""Random histories of queries to Brownian streams, recorded for
PathTrace.tla.  Modes: path (one thread), conc (several threads), seed (C++
streams with chosen generators and seeds, through drivers/cxx/brdrv, path in
BRDRV)."""
import os
import pickle
import subprocess
import sys
import threading
from fractions import Fraction as F

import roughpy as rp

import drv
from drv import rat
from rplib import DT, VT, ctx_of, tensor_levels, lie_coords

SHAPES = [(1, 1), (2, 1), (3, 1), (2, 2), (2, 2), (2, 3), (3, 2), (1, 3)]


def program(rng, mode):
    w, D = rng.choice(SHAPES)
    uniform = D == 1 or rng.random() < 0.6
    ops, regs = [], []
    hot = [F(0), F(0)]

    def span(g):
        for _ in range(30):
            pts = []
            for _ in range(2):
                x = rng.random()
                if x < 0.5:
                    pts.append(rng.choice(hot))
                elif x < 0.6:
                    pts.append(rng.choice([g["lo"], g["hi"]]))
                else:
                    m = rng.choice([0, 1, 2, 3])
                    pts.append(F(rng.randint(int(g["lo"] * 2 ** m) - 1, int(g["hi"] * 2 ** m) + 1), 2 ** m))
            a, b = sorted(pts)
            if a < b:
                hot.extend([a, b])
                return [rat(a), rat(b)]
        return [rat(g["lo"]), rat(g["hi"])]

    res0 = rng.choice([-1, 0, 1, 2, 3])
    lo = F(rng.randint(-8, 4), 2)
    hi = lo + F(rng.randint(1, 16), 2)
    new = {"op": "brown", "res": res0, "q": [rat(lo), rat(hi)], "vt": rng.choice("ds"), "t": "D"}
    if mode == "seed":
        new.update(t=rng.choice("DDDS"), gen=rng.choice(["pcg", "mt19937", "-"]),
                   seed=rng.choice([0, 1, 7, 2 ** 31, 2 ** 32 + 5, 2 ** 64 - 1, rng.getrandbits(64)]))
    ops.append(new)
    regs.append({"k": "s", "lo": lo, "hi": hi})
    r0 = rng.choice([0, 1, 2, 3])       # the one resolution of uniform programs
    streams = [1]
    twins = {}
    fork = None
    if mode == "seed":
        # a stream with the same seed
        ops.append(dict(new, a=[1]))
        regs.append(dict(regs[0]))
        streams.append(2)
        twins = {1: 2, 2: 1}
    for _ in range(rng.randint(4, 14)):
        x = rng.random()
        if mode == "path" and x < 0.08 and len(streams) < 4:
            h = rng.choice(streams)
            a, b = span(regs[h - 1])
            ops.append({"op": "restr", "a": [h], "q": [a, b]})
            regs.append({"k": "s", "lo": F(a), "hi": F(b), "of": regs[h - 1].get("of", h)})
            streams.append(len(regs))
            twins = {}
        elif mode == "path" and x < 0.16 and len(streams) < 4:
            h = rng.choice(streams)
            ops.append({"op": "copy", "a": [h]})
            regs.append(dict(regs[h - 1], of=None))
            regs[-1].pop("of")
            streams.append(len(regs))
            # from now on both are asked the same questions, until one of them is asked alone
            twins = {h: len(regs), len(regs): h}
        else:
            h = rng.choice(streams)
            if twins and rng.random() < 0.85:
                h = rng.choice(sorted(twins))
            g = regs[h - 1]
            q = span(g) if rng.random() < 0.95 else []
            res = r0 if uniform and D > 1 else rng.choice([99, res0, -1, 0, 1, 2, 3, 4, 5])
            if mode == "seed":
                q, res = q or span(g), res0 if res == 99 else res
            o = {"op": "lsig" if mode == "seed" else rng.choice(["sig", "lsig"]), "a": [h], "q": q, "res": res}
            ops.append(o)
            regs.append({"k": "a"})
            if mode == "conc" and fork is None:
                fork = len(ops) - 1
            if h in twins:
                ops.append(dict(o, a=[twins[h]], eq=len(regs)))
                regs.append({"k": "a"})
            else:
                twins = {}
    if fork is not None:
        ops[fork]["fork"] = len(ops) - fork
    return {"w": w, "D": D, "K": D if uniform else 1, "ops": ops}


def programs(rng, n, mode):
    return [program(rng, mode) for _ in range(n)]


def fl(x):
    return float(F(x))


def execute_cxx(desc, rec):
    w, D = desc["w"], desc["D"]
    rec.header(w=w, D=D, K=desc["K"], dig=4 if desc["ops"][0]["t"] == "S" else 8)
    p = subprocess.Popen([os.environ["BRDRV"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    for o in desc["ops"]:
        ev = {"op": o["op"], "a": o.get("a", []), "q": o["q"], "res": o["res"], "eq": o.get("eq", 0), "w": w, "D": D}
        rec.begin(ev)
        lo, hi = map(fl, o["q"])
        if o["op"] == "brown":
            line = "new %d %d %s %s %s %d %r %r %d" % (w, D, o["t"].lower(), o["vt"], o["gen"], o["seed"], lo, hi, o["res"])
        else:
            line = "q %d %r %r %d" % (o["a"][0], lo, hi, o["res"])
        try:
            p.stdin.write(line + "\n")
            p.stdin.flush()
            out = p.stdout.readline().strip()
        except BrokenPipeError:
            out = ""
        if not out:
            os.abort()      # as the driver did
        if out.startswith("exception"):
            raise RuntimeError(out)
        if o["op"] == "brown":
            ev.update(lo=o["q"][0], hi=o["q"][1], r=o["res"])
        else:
            ev.update(l=True, v=[rat(F(float(x))) for x in out.split()])
        rec.event(ev)
    p.stdin.close()
    p.wait()


def execute(desc, rec):
    if "seed" in desc["ops"][0]:
        return execute_cxx(desc, rec)
    w, D = desc["w"], desc["D"]
    rec.header(w=w, D=D, K=desc["K"], dig=4 if desc["ops"][0]["t"] == "S" else 8)
    regs = []

    def call(o, x):
        if o["op"] == "brown":
            return rp.BrownianStream.with_generator(ctx=ctx_of(w, D, "D"), support=rp.RealInterval(*map(fl, o["q"])),
                                                    resolution=o["res"], vtype=VT[o["vt"]])
        if o["op"] == "restr":
            return x.restrict(rp.RealInterval(*map(fl, o["q"])))
        if o["op"] == "copy":
            return pickle.loads(pickle.dumps(x))
        f = x.signature if o["op"] == "sig" else x.log_signature
        args = [rp.RealInterval(*map(fl, o["q"]))] if o["q"] else []
        kw = {} if o["res"] == 99 else {"resolution": o["res"]}
        return f(*args, **kw)

    def event(o, x):
        ev = {"op": o["op"], "a": o.get("a", []), "q": o.get("q", []), "res": o.get("res", 99), "eq": o.get("eq", 0)}
        if isinstance(x, rp.Stream):
            ev.update(lo=rat(x.support.inf()), hi=rat(x.support.sup()), r=x.resolution, w=x.width, D=x.ctx.depth)
        elif x is not None:
            c = x.context
            l = isinstance(x, rp.Lie)
            ev.update(w=c.width, D=c.depth, l=l, v=lie_coords(x, c) if l else tensor_levels(x, c.width, c.depth))
        return ev

    ops, k = desc["ops"], 0
    while k < len(ops):
        o = ops[k]
        n = o.get("fork", 1)
        batch = ops[k:k + n]
        k += n
        rec.begin(event(o, None))
        if n == 1:
            regs.append(call(o, regs[o["a"][0] - 1] if "a" in o else None))
            rec.event(event(o, regs[-1]))
            continue
        m = min(6, n)
        out, start = [None] * n, threading.Barrier(m)

        def work(j):
            start.wait()
            for i in range(j, n, m):
                try:
                    out[i] = call(batch[i], regs[batch[i]["a"][0] - 1])
                except Exception as exc:  # noqa: BLE001
                    out[i] = exc
        ths = [threading.Thread(target=work, args=(j,)) for j in range(m)]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        for b, x in zip(batch, out):
            if isinstance(x, Exception):
                raise x
            regs.append(x)
            rec.event(event(b, x))


if __name__ == "__main__":
    drv.main(sys.modules["__main__"])
