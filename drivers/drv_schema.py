"""Random histories of schemas: on the C++ class (mode cxx, through
drivers/cxx/schdrv, path in SCHDRV) and on the Python class (mode py), for
SchemaTrace.tla; "file:<path>": histories generated from the specification."""
import json
import os
import subprocess
import sys

import drv

LABELS = ["a", "b", "ab", "abc", "a1", "1", "2", "0", "x.y", "long_label"]
LONG = "a_label_of_more_than_a_few_letters"


def some_labels(rng):
    """labels that resemble one another: prefixes, other cases, any separator"""
    if rng.random() < 0.5:
        return LABELS
    base = [rng.choice(["a", "x", "7", "Q", LONG, "lead"]) for _ in range(2)]
    out = list(base)
    for _ in range(6):
        b = rng.choice(out)
        out.append(rng.choice([b + rng.choice(SEPS), b + rng.choice(SEPS) + rng.choice("ab1"), b.upper(), b + b, b[:-1] or b,
                               rng.choice(SEPS) + b, b + rng.choice("bz0")]))
    return list(dict.fromkeys(x for x in out if x != "-"))


SEPS = "._-/|;,@#=+*()[]<>!?'~^&%$"
VARS = ["u", "v", "uv", "lead", "lag", "1", "0"]


class Gen:
    """knows the labels in use, to ask about them"""

    def __init__(self, rng):
        self.rng, self.ops, self.regs = rng, [], []
        self.labels = some_labels(rng)
        self.vars = VARS if rng.random() < 0.7 else [v for v in some_labels(rng) if ":" not in v]

    def op(self, op, h=0, c=0, l="", n=0, ty=""):
        self.ops.append({"op": op, "h": h, "c": c, "l": l, "n": n, "ty": ty})

    def new(self):
        n = self.rng.choice([0, 0, 0, 1, 2, 5])
        self.op("new", n=n)
        self.regs.append({"ch": [[str(j), "inc", []] for j in range(n)], "fin": False, "time": False})

    def step(self):
        r = self.rng
        h = r.randrange(len(self.regs)) + 1
        g = self.regs[h - 1]
        x = r.random()
        if x < 0.3:
            l = "" if r.random() < 0.15 else r.choice(self.labels)
            ty = r.choice(["inc", "val", "val", "cat", "cat"])
            if not g["fin"] and l == "":
                k = len(g["ch"])
                while str(k) in [c[0] for c in g["ch"]]:
                    k += 1
                l2 = str(k)
            else:
                l2 = l
            if g["ch"] and r.random() < 0.05:
                l = l2 = r.choice(g["ch"])[0] + ":" + r.choice(self.vars)
            self.op("ins", h, l=l, ty=ty)
            if not g["fin"] and l2.split(":")[0] not in [c[0] for c in g["ch"]]:
                g["ch"].append([l2, ty, []])
        elif x < 0.55 and g["ch"]:
            c = r.randrange(len(g["ch"]))
            if r.random() < 0.5 and any(k[1] == "cat" for k in g["ch"]):
                c = r.choice([j for j, k in enumerate(g["ch"]) if k[1] == "cat"])
            v = "" if r.random() < 0.1 else r.choice(self.vars)
            self.op(r.choice(["var", "var", "addvar"]), h, c + 1, v)
            if g["ch"][c][1] == "cat" and v and v not in g["ch"][c][2]:
                g["ch"][c][2].append(v)
        elif x < 0.65 and g["ch"]:
            self.op("ll", h, r.randrange(len(g["ch"])) + 1, n=r.choice([1, 1, 0]))
        elif x < 0.68:
            g["time"] = True
            self.op("time", h)
        elif x < 0.71:
            self.op("fin", h, n=r.choice([0, 1, 3, 6, 12]))
            g["fin"] = True     # perhaps
        elif x < 0.76 and not g["time"]:
            self.op(r.choice(["json", "bin"]), h)
            self.regs.append(json.loads(json.dumps(g)))
        elif x < 0.86:
            l = r.choice(self.labels)
            if g["ch"] and r.random() < 0.7:
                l = r.choice(g["ch"])[0] + r.choice(["", ":" + r.choice(self.vars), "x", ":"])
            self.op("find", h, l=l)
        elif x < 0.95:
            l = r.choice(self.labels)
            if g["ch"] and r.random() < 0.85:
                ch = r.choice(g["ch"])
                l = ch[0] + ((":" + r.choice(self.vars)) if ch[1] == "cat" and r.random() < 0.8 else "")
            self.op("dimof", h, l=l)
        elif x < 0.98:
            self.op("chof", h, n=r.randint(0, 12))
        else:
            y = r.choice(self.labels)
            self.op("cmp", h, l=y, ty=r.choice([y, y + ":" + r.choice(self.vars), y + "x", y[:-1], r.choice(self.labels)]))

    def program(self):
        self.new()
        for _ in range(self.rng.randint(4, 18)):
            self.step()
            if len(self.regs) < 3 and self.rng.random() < 0.03:
                self.new()
        return {"ops": self.ops}


def py_program(rng):
    ops = []
    labels = some_labels(rng)
    vars = VARS if rng.random() < 0.7 else some_labels(rng)
    for _ in range(rng.randint(1, 3)):
        cs = []
        for _ in range(rng.randint(1, 6)):
            ty = rng.choice(["inc", "val", "cat"])
            cs.append({"l": rng.choice(labels), "ty": ty, "ll": ty == "val" and rng.random() < 0.4,
                       "vs": [rng.choice(vars) for _ in range(rng.randint(0, 4))] if ty == "cat" else []})
        form = rng.choice(["seq", "dict", "seqdict", "dictseq"])
        first = {}
        for c in cs:            # a label that comes again is of the same type
            if first.setdefault(c["l"], c["ty"]) != c["ty"]:
                c.update({"ty": first[c["l"]], "ll": False, "vs": []})
        if form.startswith("dict"):
            cs = list({c["l"]: c for c in cs}.values())
        ops.append({"op": "parse", "cs": cs, "form": form})
    return {"ops": ops}


def programs(rng, n, mode):
    if mode.startswith("file:"):
        return [json.loads(x) for x in open(mode[5:])]
    return [py_program(rng) if mode == "py" else Gen(rng).program() for _ in range(n)]


NAMES = {"inc": "increment", "val": "value", "cat": "categorical"}


def execute(desc, rec):
    if desc["ops"][0]["op"] == "parse":
        return execute_py(desc, rec)
    p = subprocess.Popen([os.environ["SCHDRV"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)

    def ask(*a):
        p.stdin.write(" ".join(map(str, a)) + "\n")
        p.stdin.flush()
        x = p.stdout.readline()
        if not x:
            raise RuntimeError("schdrv ended: %s" % p.wait())
        return json.loads(x)

    nreg, widths = 0, {}
    for o in desc["ops"]:
        op, h = o["op"], o["h"]
        rec.begin(o)
        l = o["l"] or "-"
        if op == "new":
            res = ask(op, o["n"])
        elif op == "ins":
            res = ask(op, h, l, o["ty"])
        elif op in ("var", "addvar"):
            res = ask(op, h, o["c"] - 1, l)
        elif op == "ll":
            res = ask(op, h, o["c"] - 1, o["n"])
        elif op in ("time", "json", "bin"):
            res = ask(op, h)
        elif op in ("fin", "chof"):
            res = ask(op, h, o["n"])
        elif op in ("find", "dimof"):
            res = ask(op, h, l)
        elif op == "cmp":
            res = ask(op, l, o["ty"] or "-")
        else:
            raise ValueError(op)
        if op in ("new", "json", "bin"):
            nreg += 1
            h = nreg
        ev = {k: o[k] for k in ("op", "c", "l", "n", "ty")}
        ev.update({"h": o["h"] if op != "new" else 1, "o": h, "py": False, "cs": [], "res": res, "obs": ask("show", h)})
        rec.event(ev)
    p.stdin.close()
    p.wait()


def execute_py(desc, rec):
    import roughpy as rp
    for j, o in enumerate(desc["ops"]):
        rec.begin(o)

        def opts(c):
            d = {}
            if c["ll"]:
                d["lead_lag"] = True
            if c["ty"] == "cat" and c["vs"]:
                d["categories"] = list(c["vs"])
            return d

        items = []
        for c in o["cs"]:
            d, t = opts(c), NAMES[c["ty"]]
            if len(items) % 3 == 2:
                t = {"inc": rp.ChannelType.IncrementChannel, "val": rp.ChannelType.ValueChannel,
                     "cat": rp.ChannelType.CategoricalChannel}[c["ty"]]
            items.append((c["l"], t, d))
        form = o["form"]
        if form == "seq":
            data = [(l, t, d) if d else (l, t) for l, t, d in items]
        elif form == "dict":
            data = {l: dict(d, type=t) for l, t, d in items}
        elif form == "seqdict":
            data = [dict(d, type=t, label=l) for l, t, d in items]
        else:
            data = {l: (t, d) if d else (t,) for l, t, d in items}
        s = rp.StreamSchema.parse(data)
        rec.event({"op": "parse", "h": 1, "o": j + 1, "c": 0, "l": "", "n": 0, "ty": "", "cs": o["cs"], "py": True, "res": 0,
                   "obs": {"width": s.width(), "labels": s.get_labels()}})


if __name__ == "__main__":
    drv.main(sys.modules["__main__"])
