"""Shared machinery: run drivers over /repo's working tree, run TLC, judge, write evidence.

Nothing here knows about a particular property.  A check is a Python function that calls
Check.model(...)   - exhaustive TLC run of a design specification
Check.traces(...)  - run the real code on cases and validate what it did with a trace spec
and ends with Check.finish().
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(1, min(8, os.cpu_count() or 1))


def repo_env(extra=None):
    env = dict(os.environ)
    env.update(HOME="/root", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="/repo:" + DRIVERS,
               PYTHONWARNINGS="ignore")
    env.update(extra or {})
    return env


class MachineryError(Exception):
    pass


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = self.validated = 0
        self.samples, self.bad, self.notes, self.explored = [], [], [], {}
        self.model_runs, self.model_bad = [], []
        self.outdir = os.path.join(VERIF, "out", pid)
        self._n = 0
        self.lost = 0

    quick = property(lambda self: self.tier != "thorough")

    # ------------------------------------------------------------------ TLC
    def _tlc(self, spec, cfg, env=None, args=(), workers=1, heap="1500m", timeout=800):
        self._n += 1
        meta = os.path.join(self.scratch, "meta%d_%d" % (self._n, id(env) % 99991))
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noTE",
               "-config", cfg] + list(args) + [spec]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % spec)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def _counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(d.replace(",", "")), int(g.replace(",", ""))

    def model(self, module, cfg, workers=4, heap="4g", expect_distinct=2, timeout=800, args=()):
        """Exhaustive model check of a design spec; an invariant violation is a machinery error
        of the specification (it does not depend on /repo), so it is an error exit."""
        rc, out = self._tlc(module + ".tla", cfg, workers=workers, heap=heap, timeout=timeout, args=args)
        d, g = self._counts(out)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError("model %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
        if d < expect_distinct:
            raise MachineryError("model %s/%s is vacuous: %d states" % (module, cfg, d))
        self.states += d
        self.transitions += g
        self.model_runs.append({"module": module, "cfg": cfg, "distinct": d, "generated": g})

    def generate(self, module, cfg, num, depth, tag="@@GEN "):
        """Behaviours generated from the specification by TLC simulation, printed as JSON."""
        rc, out = self._tlc(module + ".tla", cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth),
                                                        "-seed", str(self.seed)], timeout=300)
        res = []
        for line in out.splitlines():
            i = line.find(tag)
            if i >= 0:
                s = line[i + len(tag):].strip()
                if s.endswith('"'):
                    s = s[:-1]
                s = json.loads(s.replace('\\"', '"'))
                if s not in res:
                    res.append(s)
        if not res:
            raise MachineryError("no behaviour generated by %s/%s:\n%s" % (module, cfg, out[-3000:]))
        return res

    # --------------------------------------------------------------- driver
    def drive(self, driver, cases, shards=None, timeout=None):
        """Run the real code on the cases; returns one ndjson trace file per shard."""
        shards = min(shards or NPROC, max(1, len(cases)))
        parts = [cases[i::shards] for i in range(shards)]
        self._n += 1
        jobs = []
        for i, part in enumerate(parts):
            cin = os.path.join(self.scratch, "cases-%d-%d.json" % (self._n, i))
            cout = os.path.join(self.scratch, "trace-%d-%d.ndjson" % (self._n, i))
            with open(cin, "w") as f:
                json.dump(part, f)
            jobs.append((cin, cout))

        budget = timeout or max(30, (330 if self.quick else 2400) - max(0, time.time() - self.t0 - 200))

        def run(job):
            return self._drive_one(driver, job[0], job[1], budget)
        with ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(run, jobs))

    def _drive_one(self, driver, cin, cout, budget):
        """One driver process.  A case in which the code under test hangs, exhausts its memory or
        dies is recorded as crashed, and the remaining cases go to a new process."""
        end = time.time() + budget
        for attempt in range(3):
            log = cout + ".log"
            with open(log, "w") as lf:
                p = subprocess.Popen([PY, os.path.join(DRIVERS, driver + ".py"), cin, cout], cwd=self.scratch,
                                     env=repo_env({"VERIF_SEED": str(self.seed)}), stdout=lf,
                                     stderr=subprocess.STDOUT, start_new_session=True)
                try:
                    rc = p.wait(timeout=max(5, end - time.time()))
                except subprocess.TimeoutExpired:
                    rc = None
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            if rc == 0:
                return cout
            cases = json.load(open(cin))
            lines = open(cout).read().splitlines() if os.path.exists(cout) else []
            cur = open(cout + ".cur").read() if os.path.exists(cout + ".cur") else ""
            names = [c["case"] for c in cases]
            if (rc is not None and rc > 0) or cur not in names:
                raise MachineryError("driver %s failed (rc %s):\n%s" % (driver, rc, open(log).read()[-3000:]))
            good = []
            for x in lines:
                try:
                    json.loads(x)
                    good.append(x)
                except ValueError:
                    break
            good.append(json.dumps({"case": cur, "op": "crash", "exc": "Timeout" if rc is None else "Died",
                                    "what": "the call did not return" if rc is None else "signal %d" % -rc, "at": []}))
            rest = cases[names.index(cur) + 1:]
            if rc is None or attempt == 2:      # no time left: what remains is not explored
                self.lost += len(rest)
                rest = []
            with open(cin, "w") as f:
                json.dump(rest, f)
            with open(cout, "w") as f:
                f.write("".join(x + "\n" for x in good))
            if not rest:
                return cout
        return cout

    def validate(self, spec, files, cases=None, heap="1500m", rechunk=True):
        """Validate recorded traces with a trace spec (deterministic, total verdict)."""
        if rechunk:
            files = self._balance(files)

        def run(f):
            n = sum(1 for _ in open(f))
            if n == 0:
                return f, 0, [], (0, 0), []
            rc, out = self._tlc(spec + ".tla", spec + ".cfg", env={"TRACE": f}, heap=heap)
            bad = re.findall(r'@@BAD (\d+) (\S+) (\S+) ([^"\s]+)', out)
            if rc != 0 or "No error has been found" not in out:
                if "states generated" in out and re.search(r"[Pp]ost-?condition|POSTCONDITION|evaluat|Attempted", out) \
                        and "OutOfMemory" not in out and "StackOverflow" not in out:
                    # The trace is not a behaviour of the specification: report the first
                    # record that could not be explained.
                    d = self._counts(out)[0]
                    at = min(max(1, d), n)
                    rec = json.loads(open(f).read().splitlines()[at - 1])
                    bad.append((str(at), rec.get("case", "?"), rec.get("op", "?"), "trace.rejected"))
                    self.notes.append("trace rejected: " + out[-1500:])
                else:
                    raise MachineryError("trace spec %s could not read %s (rc %d):\n%s" % (spec, f, rc, out[-4000:]))
            return f, n, bad, self._counts(out), out
        with ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(run, files))
        nrec = 0
        for f, n, bad, (d, g), _ in results:
            nrec += n
            self.states += d
            self.transitions += g
            lines = None
            for idx, case, op, clause in sorted(set(bad), key=lambda b: int(b[0])):
                if lines is None:
                    lines = open(f).read().splitlines()
                rec = json.loads(lines[int(idx) - 1])
                self.bad.append({"case": case, "op": op, "clause": clause, "record": rec, "spec": spec,
                                 "input": (cases or {}).get(case)})
        return nrec

    def _balance(self, files):
        """Group the traces (runs of lines with the same case) evenly over NPROC files."""
        groups = []
        for f in files:
            cur = None
            for line in open(f):
                case = re.match(r'\{"case": ?"([^"]*)"', line)
                case = case.group(1) if case else None
                if cur is None or case != cur[0]:
                    cur = [case, [], 0]
                    groups.append(cur)
                cur[1].append(line)
                cur[2] += 200 + len(line)
        groups.sort(key=lambda g: -g[2])
        bins = [[0, []] for _ in range(NPROC)]
        for g in groups:
            b = min(bins, key=lambda b: b[0])
            b[0] += g[2]
            b[1].append(g)
        res = []
        self._n += 1
        for i, b in enumerate(bins):
            if not b[1]:
                continue
            p = os.path.join(self.scratch, "bal-%d-%d.ndjson" % (self._n, i))
            with open(p, "w") as f:
                for g in b[1]:
                    f.writelines(g[1])
            res.append(p)
        return res

    def traces(self, driver, spec, cases, keep=None, samples=3, label=None):
        """Drive the real code on cases and validate; counts one trace per case."""
        by = {c["case"]: c for c in cases}
        if len(by) != len(cases):
            raise MachineryError("duplicate case names for %s" % driver)
        files = self.drive(driver, cases)
        n0 = len(self.bad)
        nrec = self.validate(spec, files, by)
        if keep is not None:
            self.bad[n0:] = [b for b in self.bad[n0:] if keep(b)]
        self.validated += len(cases)
        key = label or driver
        self.explored[key] = {"cases": len(cases), "records": nrec, "spec": spec}
        for f in files:
            for line in open(f):
                if len(self.samples) < 40 and sum(s["driver"] == driver for s in self.samples) < samples \
                        and len(line) < 1500:
                    self.samples.append({"driver": driver, "record": json.loads(line)})
        if nrec < len(cases) - self.lost:
            raise MachineryError("driver %s recorded %d records for %d cases" % (driver, nrec, len(cases)))
        return nrec

    # --------------------------------------------------------------- verdict
    def finish(self, level="model_checking", assumptions=()):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == self.pid]
        hit, viol = {}, []
        for b in self.bad:
            m = [k for k in known if k["case"] == b["case"] and b["clause"] in k["clauses"]]
            if m:
                hit[m[0]["case"]] = m[0]
            else:
                viol.append(b)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "samples": self.samples or self.model_runs,
               "models": self.model_runs, "drivers": self.explored, "notes": self.notes,
               "known_findings_observed": sorted(hit)}
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": level, "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for c in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, hit[c]["what"]))
        if viol:
            os.makedirs(self.outdir, exist_ok=True)
            path = os.path.join(self.outdir, "replay.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "how": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s" % (
                               self.seed, self.tier, self.pid),
                           "violations": viol[:20], "total": len(viol)}, f, indent=1)
            seen = []
            for b in viol:
                if b["clause"] not in seen:
                    seen.append(b["clause"])
                    print("  broken clause %s: case %s op %s" % (b["clause"], b["case"], b["op"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.pid, self.states, self.transitions, self.validated, time.time() - self.t0))
        return 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
