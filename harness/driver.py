"""
Common machinery of all checks: build the TLC overrides, let TLC generate behaviours from the specification, replay them
on the real code (in several processes with different hash seeds), let TLC validate the recorded traces.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
CPUS = min(8, os.cpu_count() or 8)


class MachineryError(Exception):
    """The check itself did not work (this is never a verdict on the code)."""


def ensure_build():
    """Compile the arithmetic overrides if that has not been done for these sources."""
    out = os.path.join(BUILD, "java")
    srcs = [os.path.join(SPEC, "java", "vkover", f) for f in ("BigRat.java", "Overrides.java")]
    classes = [os.path.join(out, "vkover", f) for f in ("BigRat.class", "Overrides.class")]
    if all(os.path.exists(c) and os.path.getmtime(c) >= max(map(os.path.getmtime, srcs)) for c in classes):
        return out
    tmp = tempfile.mkdtemp(prefix="vkjava")
    subprocess.run(["javac", "-nowarn", "-d", tmp, "-cp", TLA] + srcs, check=True, capture_output=True)
    os.makedirs(os.path.join(out, "vkover"), exist_ok=True)
    for f in os.listdir(os.path.join(tmp, "vkover")):
        dst = os.path.join(out, "vkover", f)
        shutil.copyfile(os.path.join(tmp, "vkover", f), dst + ".tmp")
        os.replace(dst + ".tmp", dst)
    shutil.rmtree(tmp)
    return out


class Run:
    """One run of a check: a scratch directory and counters."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.java = ensure_build()
        self.dir = tempfile.mkdtemp(prefix=f"vk-{prop}-")
        self.t0 = time.time()
        self.n = 0
        self.states = 0          # distinct states TLC visited, all runs
        self.transitions = 0     # states generated by TLC, all runs
        self.design = []         # design level model checking runs
        self.gen_behaviours = 0
        self.traces = 0
        self.events = 0
        self.actions = {}        # action -> number of validated events
        self.failures = []       # dicts: trace, at, op, clauses
        self.samples = []
        self.unjudged = []
        self.timing = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, constants=None, init="Init", nxt="Next", spec=None, invariants=(), properties=(),
            constraint=None, env=None, workers=CPUS, extra=(), timeout=800, view=None, expect_ok=True, heap="6g"):
        self.n += 1
        cfg = os.path.join(self.dir, f"c{self.n}.cfg")
        with open(cfg, "w") as f:
            if constants:
                f.write("CONSTANTS\n")
                for k, v in constants.items():
                    f.write(f"  {k} = {v}\n")
            if spec:
                f.write(f"SPECIFICATION {spec}\n")
            else:
                f.write(f"INIT {init}\nNEXT {nxt}\n")
            for i in invariants:
                f.write(f"INVARIANT {i}\n")
            for p in properties:
                f.write(f"PROPERTY {p}\n")
            if constraint:
                f.write(f"CONSTRAINT {constraint}\n")
            if view:
                f.write(f"VIEW {view}\n")
        meta = os.path.join(self.dir, f"meta{self.n}")
        cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vkover.Overrides",
               f"-DTLA-Library={SPEC}", "-cp", f"{self.java}:{TLA}", "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-deadlock", "-noGenerateSpecTE", "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=self.dir)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f"TLC timed out on {module}") from ex
        self.timing[f"{self.n}:{module}"] = round(time.time() - t, 1)
        shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        ok = p.returncode == 0 and "Model checking completed. No error has been found." in out
        if expect_ok and not ok:
            raise MachineryError(f"TLC failed on {module} ({p.returncode}):\n" + tail(out) + tail(p.stderr))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.states += dist
        self.transitions += gen
        recs = []
        for line in out.splitlines():
            if line.startswith('"{') and line.endswith('}"'):
                recs.append(json.loads(json.loads(line)))
        return {"ok": ok, "records": recs, "distinct": dist, "generated": gen, "out": out}

    def generate(self, module, mode, n=1, depth=1, seed=None, constants=None):
        """Programs that TLC generates from the specification; returned in a canonical order."""
        c = {"SEED": self.seed if seed is None else seed, "N": n, "D": depth, "MODE": f'"{mode}"'}
        c.update(constants or {})
        r = self.tlc(module, c)
        progs = r["records"]
        if not progs:
            raise MachineryError(f"no behaviours from {module} {mode}")
        progs.sort(key=lambda x: json.dumps(x, sort_keys=True))
        for p in progs:
            p["mode"] = mode
        self.gen_behaviours += len(progs)
        return progs

    # --------------------------------------------------------------- replay
    def replay(self, progs, worker="pool_worker.py", hashseeds=(0, 1, 2, 3, 4, 5, 6, 7), env=None, timeout=700):
        """Execute the programs on the code in /repo; returns the traces."""
        k = max(1, min(CPUS, len(progs)))
        shards = [progs[i::k] for i in range(k)]

        def job(i):
            src = os.path.join(self.dir, f"p{self.n}_{i}.ndjson")
            dst = os.path.join(self.dir, f"t{self.n}_{i}.ndjson")
            hs = hashseeds[(i + self.seed) % len(hashseeds)]
            with open(src, "w") as f:
                for p in shards[i]:
                    f.write(json.dumps(dict(p, hashseed=hs)) + "\n")
            e = {k2: v for k2, v in os.environ.items() if k2 != "PYTHONPATH"}
            e.update(PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPATH=HARNESS,
                     MPLCONFIGDIR=os.path.join(self.dir, "mpl"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                     PYTHONWARNINGS="ignore", TMPDIR=self.dir)
            e.update(env or {})
            p = subprocess.run([PY, os.path.join(HARNESS, worker), src, dst], capture_output=True, text=True,
                               timeout=timeout, env=e, cwd=self.dir)
            if p.returncode != 0:
                raise MachineryError(f"{worker} failed ({p.returncode}):\n" + tail(p.stderr))
            with open(dst) as f:
                traces = [json.loads(x) for x in f]
            if len(traces) != len(shards[i]):
                raise MachineryError(f"{worker}: {len(traces)} traces for {len(shards[i])} programs")
            os.remove(src)
            os.remove(dst)
            return traces

        self.n += 1
        t = time.time()
        with ThreadPoolExecutor(k) as ex:
            res = list(ex.map(job, range(k)))
        self.timing[f"{self.n}:{worker}"] = round(time.time() - t, 1)
        traces = [t for part in res for t in part]
        return traces

    # ----------------------------------------------------------- validation
    def validate(self, traces, module="PoolTrace", constants=None, count=lambda t: len(t["ev"]) + 1):
        """TLC decides for every event whether it is a step of the specification."""
        self.n += 1
        path = os.path.join(self.dir, f"v{self.n}.ndjson")
        fails = []
        live = list(range(len(traces)))
        while True:
            with open(path, "w") as f:
                for i in live:
                    f.write(json.dumps({k: v for k, v in traces[i].items() if k not in ("prog", "mode")}) + "\n")
            r = self.tlc(module, constants, env={"TRACES": path}, expect_ok=False)
            os.remove(path)
            if r["ok"]:
                break
            # what the code returned is not even an element of the state space: TLC cannot evaluate the step
            where = re.findall(r"^(?:/\\ )?tid = (\d+)", r["out"], re.M)
            at = re.findall(r"^(?:/\\ )?l = (\d+)", r["out"], re.M)
            if "Error: Evaluating" not in r["out"] and "Error: TLC threw" not in r["out"] and "Attempted to" not in r["out"] or not where:
                raise MachineryError(f"TLC failed on {module}:\n" + tail(r["out"]))
            i = live[int(where[-1]) - 1]
            n = min(int(at[-1]) + 1, len(traces[i]["ev"])) if at else len(traces[i]["ev"])
            self.unjudged.append(tail(r["out"], 1500))
            fails.append({"trace": traces[i], "at": n, "op": traces[i]["ev"][n - 1]["op"], "clauses": ["malformed"],
                          "module": module, "constants": constants or {}})
            live.remove(i)
            if len(fails) >= 4 or not live:
                break
        if r["ok"]:
            want = sum(count(traces[i]) for i in live)
            if r["distinct"] != want:
                raise MachineryError(f"{module}: {r['distinct']} states instead of {want}\n" + tail(r["out"]))
        self.traces += len(traces)
        for t in traces:
            self.events += len(t["ev"])
            for e in t["ev"]:
                self.actions[e["op"]] = self.actions.get(e["op"], 0) + 1
        seen = set()
        for rec in r["records"] if r["ok"] else []:
            if "fail" in rec and (rec["fail"], rec["at"]) not in seen:
                seen.add((rec["fail"], rec["at"]))
                t = traces[live[rec["fail"] - 1]]
                fails.append({"trace": t, "at": rec["at"], "op": rec["op"], "clauses": sorted(rec["clauses"]),
                              "module": module, "constants": constants or {}})
        self.failures += fails
        return fails


def tail(s, n=3000):
    return s[-n:]
