"""Runs programs against the real RoughPy and records what happened.

A driver module provides
    programs(seed, n, mode) -> list of program descriptions (deterministic)
    execute(desc, rec)      -> performs the program, calling rec for each event

Programs are executed in worker processes, so that a crash or a hang of the
library ends one worker only; it is recorded as the last event of its program
(op "CRASH").  An unexpected Python exception is recorded as op "EXC".
"""
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

warnings.simplefilter("ignore")
TIMEOUT = int(os.environ.get("DRV_TIMEOUT", "60"))


def rat(x):
    """Exact rational string of an int, float or Fraction."""
    f = Fraction(x)
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


class Unexpected(Exception):
    pass


class Recorder:
    def __init__(self, out, idx, header_key="ev"):
        self.out, self.idx, self.n = out, idx, 0

    def _w(self, tag, obj):
        self.out.write("%d\t%s\t%s\n" % (self.idx, tag, json.dumps(obj, separators=(",", ":"))))
        self.out.flush()

    def header(self, **kw):
        self._w("H", kw)

    def begin(self, desc):
        """about to call the library; desc is kept if the call never returns"""
        self._w("B", desc)

    def event(self, ev):
        self._w("E", ev)
        self.n += 1


def _worker(mod, progs, todo, path):
    with open(path, "a") as out:
        for idx in todo:
            rec = Recorder(out, idx)
            rec._w("S", 0)
            signal.alarm(TIMEOUT)
            try:
                mod.execute(progs[idx], rec)
            except Exception as exc:  # noqa: BLE001
                tb = traceback.extract_tb(exc.__traceback__)
                where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb][-3:]
                rec.event({"op": "EXC", "a": [], "s": [], "r": 0, "obs": [],
                           "what": "%s: %s" % (type(exc).__name__, str(exc)[:400]), "where": where})
            signal.alarm(0)
            rec._w("D", 0)


def run(mod, progs, nworkers, tmp):
    todo = [list(range(k, len(progs), nworkers)) for k in range(nworkers)]
    pids, paths = {}, []

    def spawn(k):
        path = os.path.join(tmp, "w%d" % k)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _worker(mod, progs, todo[k], path)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            os._exit(code)
        pids[pid] = k
        return path

    paths = [spawn(k) for k in range(nworkers) if todo[k]]
    crashes = {}
    while pids:
        pid, st = os.wait()
        k = pids.pop(pid)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            continue
        # which program was running?
        last, done = None, set()
        for line in open(os.path.join(tmp, "w%d" % k)):
            idx, tag, _ = line.split("\t", 2)
            if tag == "S":
                last = int(idx)
            elif tag == "D":
                done.add(int(idx))
        if last is None or last in done:
            raise RuntimeError("driver worker failed outside a program: status %d" % st)
        crashes[last] = ("signal %d" % os.WTERMSIG(st)) if os.WIFSIGNALED(st) else ("exit %d" % os.WEXITSTATUS(st))
        todo[k] = [i for i in todo[k] if i not in done and i != last]
        if todo[k]:
            spawn(k)
    # assemble
    hdr, evs, pend = {}, {}, {}
    for path in sorted(set(paths)):
        for line in open(path):
            idx, tag, js = line.split("\t", 2)
            idx = int(idx)
            if tag == "H":
                hdr[idx] = json.loads(js)
            elif tag == "E":
                evs.setdefault(idx, []).append(json.loads(js))
                pend.pop(idx, None)
            elif tag == "B":
                pend[idx] = json.loads(js)
    out = []
    for idx in range(len(progs)):
        if idx in crashes:
            evs.setdefault(idx, []).append(
                {"op": "CRASH", "a": [], "s": [], "r": 0, "obs": [],
                 "what": crashes[idx] + (" (timeout)" if crashes[idx] == "signal 14" else ""),
                 "call": pend.get(idx)})
        rec = dict(hdr.get(idx, {}))
        rec["id"] = idx
        rec["ev"] = evs.get(idx, [])
        out.append(rec)
    return out


def main(mod):
    """argv: seed n mode out [only]"""
    seed, n, mode, outp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
    only = [int(x) for x in sys.argv[5].split(",")] if len(sys.argv) > 5 else None
    progs = mod.programs(random.Random("%s/%d" % (mode, seed)), n, mode)
    import tempfile
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as tmp:
        if only is not None:
            res = run(mod, [progs[k] for k in only], 1, tmp)
            for r, k in zip(res, only):
                r["id"] = k
        else:
            res = run(mod, progs, min(8, os.cpu_count() or 1), tmp)
    with open(outp, "w") as f:
        for r in res:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
