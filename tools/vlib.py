"""Shared machinery of the checks.

A check generates scenarios (from a TLC run over a specification, or seeded),
lets a driver built from /repo's working tree execute them, and has TLC decide
whether the recorded events are behaviours of the specification.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as _build  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class ToolError(Exception):
    """The check itself could not do its work (exit status 2, never a verdict)."""


class Tlc:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"Finished computing initial states: (\d+) ", out)
        self.initial = int(m[-1]) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.completed = "Model checking completed. No error has been found" in out
        self.post_failed = "POSTCONDITION" in out.upper() and "FALSE" in out.upper() or "Postcondition" in out
        self.invariant = re.findall(r"Invariant (\S+) is violated", out)
        self.coverage = {}
        for a, d, g in re.findall(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module \w+[^>]*>: (\d+):(\d+)", out, re.M):
            o = self.coverage.get(a, (0, 0))
            self.coverage[a] = (o[0] + int(d), o[1] + int(g))


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        base = os.path.join(VERIF, "build", "scratch")
        os.makedirs(base, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []
        self.known_hits = []
        self.extra = {}
        self.assumptions = []
        self.n = 0
        self.before = {}        # trace -> how it was recorded
        with open(KNOWN) as f:
            self.known = [k for k in json.load(f)["findings"] if k["property"] == pid]

    # -- tools ---------------------------------------------------------------
    def build(self, *targets):
        r = _build.build(list(targets))
        return r[targets[0]] if len(targets) == 1 else [r[t] for t in targets]

    def tmp(self, name):
        self.n += 1
        return os.path.join(self.scratch, "%03d-%s" % (self.n, name))

    def tlc(self, module, cfg=None, env=None, workers=1, timeout=600, mem="3g", args=(), coverage=False):
        meta = self.tmp("meta")
        os.makedirs(meta)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC did not finish %s within %d s" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = Tlc(p.returncode, p.stdout.decode(errors="replace"), time.time() - t)
        self.states += r.distinct
        self.transitions += max(0, r.generated - r.initial)
        return r

    def model(self, module, cfg=None, must_cover=(), **kw):
        """Explore a specification's own state space; anything but success is a tool error."""
        r = self.tlc(module, cfg, coverage=bool(must_cover), **kw)
        if not r.completed:
            raise ToolError("specification %s/%s does not check:\n%s" % (module, cfg or module, r.out[-3000:]))
        for a in must_cover:
            if r.coverage.get(a, (0, 0))[1] == 0:
                raise ToolError("specification %s: action %s is never taken" % (module, a))
        return r

    def generate(self, module, cfg=None, **kw):
        """Run a generator specification, which writes JSON lines into $OUT, and read them."""
        out = self.tmp("gen.json")
        env = dict(kw.pop("env", {}) or {})
        env["OUT"] = out
        env["SEED"] = str(self.seed)
        self.model(module, cfg, env=env, **kw)
        with open(out) as f:
            txt = f.read().strip()
        if not txt:
            raise ToolError("%s generated nothing" % module)
        return [json.loads(x) for x in txt.splitlines()]

    # -- the implementation --------------------------------------------------
    def _chunk(self, exe, items, env, per, cwd, args):
        """items: [(index, scenario)]; returns {index: [events]}."""
        res = {}
        todo = list(items)
        while todo:
            d = tempfile.mkdtemp(prefix="run-", dir=self.scratch)
            evf = os.path.join(d, "events")
            inp = os.path.join(d, "in")
            with open(inp, "w") as f:
                for i, s in todo:
                    f.write(json.dumps({"s": i, "v": s}) + "\n")
            e = dict(os.environ)
            e.update({"OMP_NUM_THREADS": "1", "EVENTS": evf, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1"})
            e.update(env or {})
            work = os.path.join(d, "cwd")
            os.makedirs(work)
            killed = False
            with open(inp) as fi, open(os.path.join(d, "log"), "w") as fo:
                p = subprocess.Popen([exe] + list(args), stdin=fi, stdout=fo, stderr=subprocess.STDOUT, cwd=work, env=e,
                                     start_new_session=True)
                try:
                    p.wait(timeout=per * len(todo) + 60)
                except subprocess.TimeoutExpired:
                    killed = True
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
            done, cur = set(), None
            for k, (i, _) in enumerate(todo):
                t = res.setdefault(i, [])
                self.before[id(t)] = (t, exe, todo, k, env, per, cwd, args)
            if os.path.exists(evf):
                with open(evf) as f:
                    for line in f:
                        if not line.endswith("\n"):
                            break
                        ev = json.loads(line)
                        s = ev.pop("s")
                        cur = s
                        if ev["e"] == "__end":
                            done.add(s)
                            cur = None
                        else:
                            res[s].append(ev)
            rest = [(i, s) for i, s in todo if i not in done]
            with open(os.path.join(d, "log")) as f:
                log = f.read()[-1500:]
            shutil.rmtree(d, ignore_errors=True)
            if not rest:
                break
            if p.returncode == 0 and not killed:
                raise ToolError("driver %s stopped without finishing its scenarios\n%s" % (os.path.basename(exe), log))
            bad = rest[0][0]
            if p.returncode == 97 or (not done and cur is None and not res[bad] and len(items) == len(rest) and p.returncode > 0):
                raise ToolError("driver %s failed (status %s)\n%s" % (os.path.basename(exe), p.returncode, log))
            res[bad].append({"e": "crash", "how": "timeout" if killed else "status %d" % p.returncode,
                                            "log": log[-600:]})
            todo = rest[1:]
        return res

    def drive(self, exe, scenarios, env=None, per=20, jobs=8, cwd=None, args=()):
        idx = list(enumerate(scenarios))
        chunks = [idx[k::jobs] for k in range(jobs) if idx[k::jobs]]
        out = {}
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for r in ex.map(lambda c: self._chunk(exe, c, env, per, cwd, args), chunks):
                out.update(r)
        return [out.get(i, []) for i in range(len(scenarios))]

    # -- conformance ---------------------------------------------------------
    def _accept(self, module, cfg, events, env, timeout):
        """TLC over one concatenated trace: number of accepted lines."""
        f = self.tmp("trace.ndjson")
        with open(f, "w") as o:
            for ev in events:
                o.write(json.dumps(ev) + "\n")
        e = dict(env or {})
        e["TRACE"] = f
        r = self.tlc(module, cfg, env=e, timeout=timeout)
        os.unlink(f)
        if r.completed:
            return len(events), r
        if r.rc in (10, 11, 12, 13) or r.post_failed or "Postcondition" in r.out or r.invariant:
            d = r.depth - 1 if r.depth else None
            if r.invariant:
                m = re.findall(r"^State (\d+):", r.out, re.M)
                d = max([int(x) for x in m] or [1]) - 2
            if d is None or d < 0 or d >= len(events) + 1:
                raise ToolError("cannot interpret TLC on %s:\n%s" % (module, r.out[-3000:]))
            return d, r
        raise ToolError("TLC failed on %s (status %d):\n%s" % (module, r.rc, r.out[-3000:]))

    def _repetitions(self, trace, alone):
        """Further executions of the scenario of a trace."""
        yield alone()
        if id(trace) in self.before:
            _, exe, items, k, env, per, cwd, args = self.before[id(trace)]
            for _ in range(3):
                yield self._chunk(exe, items[:k + 1], env, per, cwd, args)[items[k][0]]
        for _ in range(2):
            yield alone()

    def validate(self, module, scenarios, traces, rerun=None, cfg=None, env=None, key=None, describe=None,
                 batch=4000, timeout=600, max_reports=8, jobs=4):
        """Decide every recorded trace with TLC.  A rejected scenario is executed
        again, on its own and then after those that came before it in its process,
        and reported only if the specification rejects that too."""
        traces = [t or [{"e": "nothing recorded"}] for t in traces]
        groups, cur, size = [], [], 0
        for i, t in enumerate(traces):
            if size and size + len(t) > batch:
                groups.append(cur)
                cur, size = [], 0
            cur.append(i)
            size += len(t) + 1
        if cur:
            groups.append(cur)
        bad = []

        def one(group):
            res = []
            ids = list(group)
            while ids:
                evs, owner = [], []
                for i in ids:
                    for ev in [{"e": "begin", "p": scenarios[i]}] + traces[i]:
                        evs.append(ev)
                        owner.append(i)
                n, _ = self._accept(module, cfg, evs, env, timeout)
                if n >= len(evs):
                    break
                b = owner[n]
                pos = n - owner.index(b)
                res.append((b, pos))
                if len(res) >= max_reports:
                    break
                ids = ids[ids.index(b) + 1:]
            return res

        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for r in ex.map(one, groups):
                bad += r
        self.traces += len(traces) - len(bad)
        lost, reported = [], 0
        for b, pos in bad[:max_reports]:
            tr = traces[b]
            if rerun is not None:
                pos = None
                for again in self._repetitions(tr, lambda: rerun(scenarios[b])):
                    evs = [{"e": "begin", "p": scenarios[b]}] + again
                    n, _ = self._accept(module, cfg, evs, env, timeout)
                    if n < len(evs):
                        pos = n
                        break
                    if tr[-1].get("how") == "timeout":
                        break
                if pos is None:
                    if tr[-1].get("how") != "timeout":
                        lost.append(b)
                    continue
                tr = again
            reported += 1
            ev = tr[pos - 1] if 0 < pos <= len(tr) else {"e": "begin"}
            k = key(scenarios[b], ev) if key else None
            what = describe(scenarios[b], ev, tr, pos) if describe else \
                "%s does not allow event %d %s of scenario %s" % (module, pos, json.dumps(ev)[:500], json.dumps(scenarios[b])[:500])
            self.report(k, what, {"module": module, "scenario": scenarios[b], "events": tr, "rejected_event": pos})
        if lost and not reported:
            raise ToolError("scenario %s was rejected once and accepted when repeated" % json.dumps(scenarios[lost[0]])[:400])
        if len(bad) > max_reports:
            self.extra["further_rejections"] = len(bad) - max_reports
        return bad

    def binding(self, module, scenarios, traces, changes, cfg=None, env=None, timeout=300):
        """Show that the recorded fields matter: every listed change to a recorded
        trace must make the specification reject it.  changes: functions that get
        (scenario, events) and return altered events, or None if not applicable."""
        def one(ch):
            for s, t in zip(scenarios, traces):
                new = ch(s, json.loads(json.dumps(t)))
                if new is None:
                    continue
                evs = [{"e": "begin", "p": s}] + new
                n, _ = self._accept(module, cfg, evs, env, timeout)
                if n >= len(evs):
                    raise ToolError("%s accepts an altered trace (%s)" % (module, ch.__name__))
                return 1
            raise ToolError("no trace to alter with %s" % ch.__name__)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            n = sum(ex.map(one, changes))
        self.extra["altered_traces_rejected"] = self.extra.get("altered_traces_rejected", 0) + n

    # -- verdicts ------------------------------------------------------------
    def report(self, key, what, detail):
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        self.violations.append((what, detail))

    def sample(self, *xs):
        for x in xs:
            if len(self.samples) < 4:
                self.samples.append(x)

    def finish(self, level="model_checking", coverage=None):
        cov = coverage or {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            rp = os.path.join(EVID, self.pid + ".replay.json")
            with open(rp, "w") as f:
                json.dump([{"what": w, "detail": d} for w, d in self.violations], f, indent=1)
            for w, _ in self.violations[:5]:
                print("  " + w)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
            return 1
        print("%s held (%s): %d states, %d transitions, %d traces, %.1f s" %
              (self.pid, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0
