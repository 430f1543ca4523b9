"""Common machinery of the checks: building RoughPy, running TLC, recording
executions of the real code and checking them against the specification."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(REPO, "_build")
PY = "/opt/roughpy-venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """the check itself could not give an answer"""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_module():
    """Builds the Python module from /repo's working tree, in /repo/_build
    (ignored by git), with the options of /opt/vp/build.sh."""
    t0 = time.time()
    env = {"HOME": "/root", "LANG": "C.UTF-8", "CC": "gcc", "CXX": "g++",
           "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"}
    conf = ["cmake", "-S", REPO, "-B", BUILD, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
            "-DROUGHPY_NO_VCPKG=ON", "-DROUGHPY_BUILD_TESTS=ON", "-DROUGHPY_BUILD_TEST_PYTHON_EMBED=ON",
            "-DROUGHPY_BUILD_PYLIB=ON", "-DROUGHPY_EXPERIMENTAL=ON", "-DROUGHPY_USE_CCACHE=OFF",
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DCMAKE_PREFIX_PATH=/opt/vp/cmake",
            "-DCMAKE_PROJECT_RoughPy_INCLUDE=/opt/vp/cmake/leave-out.cmake",
            "-DPCGRandom_INCLUDE_DIRS=/opt/vp/cmake/include", "-DPython_ROOT_DIR=/opt/roughpy-venv",
            "-DPython_EXECUTABLE=" + PY]
    r = subprocess.run(conf, env=env, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("cmake failed:\n" + r.stdout[-2000:] + r.stderr[-2000:])
    r = subprocess.run(["ninja", "-C", BUILD, "-j8", "RoughPy_PyModule"], env=env, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("build failed:\n" + r.stdout[-4000:] + r.stderr[-2000:])
    log("build: %.1f s" % (time.time() - t0))


class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.states = self.transitions = self.traces = 0
        self.samples, self.stages, self.assumptions, self.known = [], [], [], []
        self.evdir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evdir, exist_ok=True)
        self.classes = os.path.join(self.tmp, "classes")
        os.makedirs(self.classes)
        r = subprocess.run(["javac", "-cp", TLA_CP, "-d", self.classes, os.path.join(VERIF, "spec", "Rat.java")],
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac failed: " + r.stderr)
        self.specdir = os.path.join(self.tmp, "spec")
        # findings recorded and not repaired: known: property=<id> <name> <what fails>
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            self.findings = {m.group(1): m.group(2) for m in
                             (re.match(r"known: property=%s (\S+) (.*)" % pid, x) for x in f) if m}
        shutil.copytree(os.path.join(VERIF, "spec"), self.specdir)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, args=(), workers=8, timeout=800):
        """runs TLC; returns its output"""
        meta = tempfile.mkdtemp(dir=self.tmp)
        e = dict(os.environ)
        e["FINDINGS"] = " ".join(sorted(self.findings))
        e.update(env or {})
        cmd = ["java", "-Xss64m", "-Xmx20g", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta,
               "-cp", self.classes + ":" + TLA_CP,
               "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-deadlock",
               *args, "-config", (cfg or module) + ".cfg", module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=self.specdir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        return "\n".join(x for x in (r.stdout + r.stderr).split("\n")
                         if not re.match(r"Parsing file|Loading |Semantic processing|Linting of", x))

    @staticmethod
    def counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

    def model_check(self, module, cfg=None, what="", min_states=1, env=None, timeout=800):
        """The specification itself has its properties (no code involved)."""
        t0 = time.time()
        out = self.tlc(module, cfg, env=env, timeout=timeout)
        gen, dist = self.counts(out)
        if "Model checking completed. No error has been found." not in out or dist < min_states:
            raise CheckError("model %s (%s): not verified\n%s" % (module, cfg, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.stages.append({"stage": "model checking", "module": module, "cfg": cfg or module, "what": what,
                            "states": dist, "generated": gen, "wall_s": round(time.time() - t0, 1)})
        log("MC %s/%s: %d states %.1f s" % (module, cfg, dist, time.time() - t0))

    def refuted(self, module, invariant, cfg=None, what="", env=None, timeout=800):
        """The model with a mistake in it has not the property: the check of
        the model can tell."""
        t0 = time.time()
        out = self.tlc(module, cfg, env=env, timeout=timeout)
        if not re.search(r"(Invariant|Action property|Property) (%s) is violated" % invariant, out):
            raise CheckError("model %s with %s: no violation of %s\n%s" % (module, env, invariant, out[-3000:]))
        self.stages.append({"stage": "model with a mistake is refuted", "module": module, "env": env, "what": what,
                            "violated": invariant, "wall_s": round(time.time() - t0, 1)})
        log("MC %s %s: refuted, %.1f s" % (module, env, time.time() - t0))

    def histories(self, module, cfg=None, what="", env=None, limit=None, timeout=800):
        """Model checks the module, which prints histories; returns the file
        they are written to (at most limit of them, chosen by the seed) and
        their number."""
        t0 = time.time()
        out = self.tlc(module, cfg, env=dict(env or {}, EMIT="1"), timeout=timeout)
        gen, dist = self.counts(out)
        lines = [x for x in out.split("\n") if x.startswith('"HIST ')]
        if "Model checking completed. No error has been found." not in out or not lines:
            rest = "\n".join(x for x in out.split("\n") if not x.startswith('"HIST '))
            raise CheckError("model %s (%s): not verified\n%s" % (module, cfg, rest[-3000:]))
        self.states += dist
        self.transitions += gen
        hs = sorted({json.loads(x)[5:] for x in lines})
        total = len(hs)
        if limit and total > limit:
            hs = random.Random(self.seed).sample(hs, limit)
        path = os.path.join(self.tmp, module + "-histories.ndjson")
        with open(path, "w") as f:
            f.write("\n".join(hs) + "\n")
        self.stages.append({"stage": "model checking", "module": module, "cfg": cfg or module, "what": what, "env": env,
                            "states": dist, "generated": gen, "histories": total, "chosen": len(hs),
                            "wall_s": round(time.time() - t0, 1)})
        log("MC %s/%s: %d states, %d histories, %.1f s" % (module, cfg, dist, total, time.time() - t0))
        return path, len(hs)

    # ------------------------------------------------------------- traces
    def record(self, driver, mode, n, seed, out, only=None, timeout=None, env=None):
        e = dict(os.environ)
        e.update({"PYTHONPATH": REPO + ":" + os.path.join(VERIF, "drivers"), "PYTHONDONTWRITEBYTECODE": "1",
                  "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
        e.update(env or {})
        if timeout:
            e["DRV_TIMEOUT"] = str(timeout)
        cwd = tempfile.mkdtemp(dir=self.tmp)
        cmd = [PY, "-W", "ignore", os.path.join(VERIF, "drivers", driver + ".py"), str(seed), str(n), mode, out]
        if only is not None:
            cmd.append(",".join(map(str, only)))
        try:
            r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=850)
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s timed out" % driver)
        shutil.rmtree(cwd, ignore_errors=True)
        if r.returncode or not os.path.exists(out):
            raise CheckError("driver %s failed (%d):\n%s\n%s" % (driver, r.returncode, r.stdout[-1500:], r.stderr[-3000:]))
        with open(out) as f:
            return [json.loads(line) for line in f]

    def judge(self, spec, path, progs, cfg=None):
        """returns (index in the file, message) of the first execution that is
        not a behaviour of the specification, or None"""
        want = sum(len(p["ev"]) + 1 for p in progs)
        out = self.tlc(spec, cfg, env={"TRACE": path})
        gen, dist = self.counts(out)
        for k in sorted(set(re.findall(r'^"KNOWN (\S+)"', out, re.M))):
            line = "%s: %s" % (k, self.findings[k])
            if line not in self.known:
                self.known.append(line)
        self.states += dist
        self.transitions += gen
        if "Model checking completed. No error has been found." in out:
            if dist != want:
                raise CheckError("%s: %d states where %d were expected" % (spec, dist, want))
            return None
        progidx = re.findall(r"^/\\ prog = (\d+)", out, re.M)
        if not progidx:
            raise CheckError("%s: TLC failed\n%s" % (spec, out[:1500] + "\n...\n" + out[-1500:]))
        if "is violated" in out:
            m = re.findall(r'^/\\ bad = "((?:[^"\\]|\\.)*)"', out, re.M)
            msg = m[-1] if m else "?"
        else:
            m = re.search(r"Error: (.*?)(?:Error: The behavior|\Z)", out, re.S)
            msg = "recorded execution has no counterpart in the specification: " + (m.group(1)[:300] if m else "")
        ev = re.findall(r"^/\\ i = (\d+)", out, re.M)
        return int(progidx[-1]) - 1, msg, (int(ev[-1]) - 2 if ev else 0)

    def conform(self, driver, mode, n, spec, cfg=None, seed=None, what="", env=None):
        """Random executions of the real code are behaviours of the specification."""
        t0 = time.time()
        seed = self.seed if seed is None else seed
        path = os.path.join(self.tmp, "%s-%s.ndjson" % (driver, re.sub(r"[^A-Za-z0-9]", "_", mode)[-60:]))
        progs = self.record(driver, mode, n, seed, path, env=env)
        if not progs or not any(p["ev"] for p in progs):
            raise CheckError("driver %s %s recorded nothing" % (driver, mode))
        t1 = time.time()
        while True:
            v = self.judge(spec, path, progs, cfg)
            if v is None:
                break
            k, msg, ev = v
            p = progs[k]
            if "(timeout)" in msg:
                # a slow machine is not a violation: run it alone, with more time
                one = os.path.join(self.tmp, "retry.ndjson")
                again = self.record(driver, mode, n, seed, one, only=[p["id"]], timeout=300, env=env)
                if not any(e["op"] == "CRASH" for e in again[0]["ev"]):
                    progs[k] = again[0]
                    with open(path, "w") as f:
                        for q in progs:
                            f.write(json.dumps(q) + "\n")
                    continue
            again_msg = None
            try:
                one = os.path.join(self.tmp, "again.ndjson")
                again = self.record(driver, mode, n, seed, one, only=[p["id"]], env=env)
                w = self.judge(spec, one, again, cfg)
                again_msg = w[1] if w else "not reproduced when run alone"
            except CheckError as exc:
                again_msg = "re-run failed: " + str(exc)[:300]
            bad_ev = p["ev"][ev] if 0 <= ev < len(p["ev"]) else None
            rep = {"property": self.pid, "driver": driver, "mode": mode, "n": n, "seed": seed, "program": p["id"],
                   "spec": spec, "cfg": cfg, "message": msg, "event": ev, "failing_event": bad_ev,
                   "rerun": again_msg, "trace": p}
            path_r = os.path.join(self.evdir, "replay-%s.json" % self.pid)
            with open(path_r, "w") as f:
                json.dump(rep, f, indent=1)
            brief = json.dumps(bad_ev)[:400] if bad_ev else ""
            raise Violation("%s/%s program %d event %d: %s | %s | re-run: %s" % (
                driver, mode, p["id"], ev, msg, brief, again_msg), path_r)
        self.traces += len(progs)
        ops = {}
        for p in progs:
            for e in p["ev"]:
                ops[e["op"]] = ops.get(e["op"], 0) + 1
        self.stages.append({"stage": "conformance", "driver": driver, "mode": mode, "seed": seed, "what": what,
                            "executions": len(progs), "events": sum(ops.values()), "operations": ops,
                            "spec": spec, "record_s": round(t1 - t0, 1), "wall_s": round(time.time() - t0, 1)})
        small = sorted(progs, key=lambda p: len(json.dumps(p)))
        self.samples.append({"driver": driver, "mode": mode, "execution": small[len(small) // 8]})
        log("TRACE %s/%s: %d executions, %d events, record %.1f s, total %.1f s" % (
            driver, mode, len(progs), sum(ops.values()), t1 - t0, time.time() - t0))

    def cxx_driver(self, name, libs):
        """compiles drivers/cxx/<name>.cpp against the libraries of /repo"""
        out = os.path.join(self.tmp, name)
        cmd = ["g++", "-O1", "-std=gnu++17", "-DNDEBUG", "-DNOMINMAX=1"]
        for m in ("streams", "algebra", "platform", "core", "scalars", "intervals"):
            cmd += ["-I%s/%s/include" % (REPO, m), "-I%s/%s" % (BUILD, m)]
        cmd += ["-I%s/vendored/libalgebra_lite/.." % REPO, "-I%s/vendored/libalgebra_lite" % BUILD,
                "-isystem", "/usr/include/eigen3", "-I" + REPO,
                os.path.join(VERIF, "drivers", "cxx", name + ".cpp"), "-o", out]
        for m in libs:
            if m == "lal":
                d = "%s/vendored/libalgebra_lite" % BUILD
                cmd += ["-Wl,-rpath," + d, d + "/libLibalgebra_lite.so"]
                continue
            if m == "gmp":
                cmd.append("-l:libgmp.so.10")
                continue
            d = "%s/%s" % (BUILD, m.lower())
            cmd += ["-Wl,-rpath," + d, "%s/libRoughPy_%s.so" % (d, m)]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (name, r.stderr[-3000:]))
        return out

    # ----------------------------------------------------------- evidence
    def evidence(self, violations):
        def cut(o):
            s = json.dumps(o)
            return o if len(s) < 6000 else s[:6000] + "..."
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": [cut(s) for s in self.samples[:4]],
                           "stages": self.stages},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        with open(os.path.join(self.evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
