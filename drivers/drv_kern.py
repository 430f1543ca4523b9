"""Random calls of the kernels of roughpy_compute (header-only C++), through
drivers/cxx/kerndrv (path in KERNDRV), for KernelTrace.tla.
Modes: free (products, antipode, adjoint), shuffle, series (exp, log, fmexp),
vector, sparse."""
import os
import subprocess
import sys

import drv

OPS = {"free": ["fma", "fma", "imul", "imul", "anti", "rev", "adjl", "adjl"], "shuffle": ["shuf", "shuf2", "adjs"],
       "series": ["exp", "log", "fmexp"], "vector": ["vadd", "vadd", "vinc", "vims", "vsm"],
       "sparse": ["csr", "csc", "at"]}
NVIEWS = {"fma": 3, "imul": 2, "anti": 2, "rev": 2, "adjl": 3, "shuf": 3, "shuf2": 3, "adjs": 3, "exp": 2, "log": 2,
          "fmexp": 3, "vadd": 3, "vinc": 2, "vims": 1, "vsm": 2}
WIDTHS = [1, 2, 2, 2, 3, 3, 4, 5]
LIE = {2: [0, 2, 1, 2, 3], 3: [0, 3, 3, 8, 18], 4: [0, 4, 6, 20]}


def coef(rng, p0=0.2):
    if rng.random() < p0:
        return "0"
    n = rng.choice([-3, -2, -1, 1, 2, 3])
    return drv.rat(n) if rng.random() < 0.7 else drv.Fraction(n, rng.choice([2, 3])).__str__()


def depth(rng, W, mode):
    most = {1: 6, 2: 5, 3: 4, 4: 3, 5: 3}[W]
    if mode == "series":
        most = {1: 5, 2: 4, 3: 3, 4: 3, 5: 2}[W]
    if mode == "shuffle":
        most = {1: 5, 2: 4, 3: 3, 4: 3, 5: 2}[W]
    return rng.randint(1, most) if rng.random() < 0.7 else rng.randint(0, most)


def program(rng, mode):
    W = rng.choice(WIDTHS)
    return {"w": W, "ops": [call(rng, mode, W) for _ in range(rng.randint(3, 6))]}


def call(rng, mode, W):
    op = rng.choice(OPS[mode])
    e = {"op": op, "k": rng.choice(["id", "id", "neg", "mul", "rmul", "div"]), "c": coef(rng, 0),
         "k2": rng.choice(["id", "neg", "mul", "div"]), "c2": coef(rng, 0), "how": "ptr"}
    if mode == "sparse":
        n, m = rng.randint(1, 6), rng.randint(1, 6)
        dens = rng.choice([0.0, 0.7, 0.5, 0.2])
        e["m"] = [[coef(rng, dens) for _ in range(m)] for _ in range(n)]
        e["out"] = [coef(rng) for _ in range(n)]
        e["arg"] = [coef(rng) for _ in range(m)]
        e["how"] = op if op != "at" else rng.choice(["csr", "csc"])
        e["seed"] = rng.random()
        return e
    lie = mode == "vector" and op != "vsm" and W in LIE and rng.random() < 0.35
    if lie:
        e["how"] = "lie"
    elif op not in ("vsm", "fmexp") and rng.random() < 0.35:
        e["how"] = "str"
    common = depth(rng, W, mode)
    if lie:
        common = len(LIE[W]) - 1
    views = []
    for j in range(NVIEWS[op]):
        n = common if mode in ("vector", "shuffle") else depth(rng, W, mode)
        if mode == "shuffle" and rng.random() < 0.3:
            n += 1 if W < 3 else 0
        lo, hi = 0, n
        if mode == "shuffle":
            hi = common
        elif rng.random() < 0.6:
            hi = rng.randint(0, n)
        if mode in ("free", "series") and not (mode == "series" and (j == 0 or (op == "fmexp" and j == 1))):
            if rng.random() < 0.4:
                lo = rng.randint(0, hi)
        sizes = LIE[W][:n + 1] if lie else [W ** d for d in range(n + 1)]
        x = [[coef(rng) for _ in range(s)] for s in sizes]
        if op == "log" and j == 1 and rng.random() < 0.7:
            x[0] = ["1"]
        views.append({"n": n, "lo": lo, "hi": hi, "x": x, "st": rng.randint(1, 3) if e["how"] == "str" else 1})
    e["v"] = views
    return e


def programs(rng, n, mode):
    return [program(rng, mode) for _ in range(n)]


def line(W, e):
    toks = [e["op"] if e["op"] != "at" else "mat", e["how"], W, e["k"], e["c"], e["k2"], e["c2"]]
    if "m" in e:
        M = e["m"] if e["how"] == "csr" else [list(c) for c in zip(*e["m"])]
        data, idx, off = [], [], [0]
        rng = drv.random.Random(e["seed"])
        for row in M:
            nz = [(j, c) for j, c in enumerate(row) if c != "0"]
            rng.shuffle(nz)
            data += [c for _, c in nz]
            idx += [j for j, _ in nz]
            off.append(len(data))
        toks += [len(e["m"]), len(e["m"][0]), len(data)] + data + idx + off
        if e["op"] != "at":
            toks += e["out"] + e["arg"]
    else:
        toks.append(len(e["v"]))
        for v in e["v"]:
            begin = [0]
            for lev in v["x"]:
                begin.append(begin[-1] + len(lev))
            toks += [v["st"], v["n"], v["lo"], v["hi"]] + begin + [c for lev in v["x"] for c in lev]
    return " ".join(map(str, toks)) + "\n"


def execute(desc, rec):
    rec.header(w=desc["w"])
    p = subprocess.Popen([os.environ["KERNDRV"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True)
    for e in desc["ops"]:
        rec.begin(e)
        p.stdin.write(line(desc["w"], e))
        p.stdin.flush()
        ans = p.stdout.readline().split()
        if not ans:
            p.wait()
            if p.returncode == 77:
                return      # beyond 128 bits: nothing to compare
            raise drv.Unexpected("the kernel %s ended the process (%d) %s" % (e["op"], p.returncode, p.stderr.read()[-200:]))
        ev = dict(e, clean=ans[0] == "1")
        ev.pop("seed", None)
        vals = ans[1:]
        if e["op"] == "at":
            m = len(e["m"][0])
            ev["res"] = [vals[k:k + m] for k in range(0, len(vals), m)]
        elif "m" in e:
            ev["res"] = vals
        else:
            ev["res"], k = [], 0
            for lev in e["v"][0]["x"]:
                ev["res"].append(vals[k:k + len(lev)])
                k += len(lev)
        rec.event(ev)
    p.stdin.close()
    p.wait()


if __name__ == "__main__":
    drv.main(sys.modules["__main__"])
