"""C26: the command-line programs (Launch.tla)."""
import concurrent.futures
import json
import math
import os
import random
import shutil
import subprocess

import meshes
from problems import VACUUM, case

FINAL = 0.4
HELP = ("-h", "-i")


def msh(m):
    out = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$Nodes", str(len(m["nodes"]))]
    out += ["%d %r %r %r" % (i + 1, *map(float, p)) for i, p in enumerate(m["nodes"])]
    out += ["$EndNodes", "$Elements", str(len(m["els"]))]
    out += ["%d %d 2 %s" % (i + 1, e[0], " ".join(map(str, e[1:]))) for i, e in enumerate(m["els"])]
    return "\n".join(out + ["$EndElements", ""])


def grid(skin, lit):
    """5 x 5 squares with a total-field box inside a box for the far field."""
    box = lambda b, k: all(2 - k <= x <= 2 + k for x in b[:2])

    def inner(a, b, p):
        if box(a, 0) != box(b, 0):
            return lit
        return skin if box(a, 1) != box(b, 1) else None
    return meshes.box("quad", [5, 5], outer=lambda p: 1, inner=inner, place=lambda p: [p[0] / 5, p[1] / 5, 0.0],
                      order=lambda n: sorted(range(n), key=lambda e: box((e % 5, e // 5), 0)))


def lay(d, s):
    """Two complete cases, files for the post-processor, and files that are neither."""
    for name, (skin, lit), spread in (("alpha", (2, 3), 0.15), ("beta", (3, 2), 0.2)):
        w = os.path.join(d, "testData/maxwellInputs", name)
        os.makedirs(w)
        wave = {"type": "planewave", "polarization": [0.0, 1.0, 0.0], "propagation": [1.0, 0.0, 0.0], "tags": [lit],
                "magnitude": {"type": "gaussian", "spread": spread, "mean": [-0.2, 0.0, 0.0]}}
        cs = case(VACUUM, [{"tags": [1], "type": "SMA"}], [wave])
        cs["model"]["filename"] = name + ".msh"
        cs["solver_options"] = {"final_time": FINAL, "order": 1, "solver_type": "global"}
        cs["probes"] = {"point": [{"name": "spot", "field": "E", "polarization": "Y", "steps": 1, "position": [0.5, 0.5]}],
                        "rcssurface": [{"name": "skin", "steps": 1, "tags": [skin]}]}
        with open(os.path.join(w, name + ".json"), "w") as o:
            json.dump(cs, o)
        with open(os.path.join(w, name + ".msh"), "w") as o:
            o.write(msh(grid(skin, lit)))
    bad = os.path.join(d, "testData/maxwellInputs/bad")
    os.makedirs(bad)
    cs = json.load(open(os.path.join(d, "testData/maxwellInputs/alpha/alpha.json")))
    cs["model"]["filename"] = "bad.msh"
    del cs["sources"]
    json.dump(cs, open(os.path.join(bad, "bad.json"), "w"))
    shutil.copy(os.path.join(d, "testData/maxwellInputs/alpha/alpha.msh"), os.path.join(bad, "bad.msh"))
    span = lambda xs, u: {"start": xs[0] * u, "end": xs[-1] * u, "steps": len(xs)}
    for f, n in (("post-a.json", "alpha"), ("again-a.json", "alpha"), ("post-b.json", "beta"), ("post-none.json", "gamma")):
        q = s["asks"].get(f, {"phis": [0], "freqs": [1]})
        json.dump({"runmode": "single-core" if s["ranks"] == 1 else "mpi-%d" % s["ranks"], "casename": n,
                   "frequencies": span(q["freqs"], 5e7),
                   "angles": {"theta": span([1], math.pi / 2), "phi": span(q["phis"], 0.25)}}, open(os.path.join(d, f), "w"))
    open(os.path.join(d, "notes.txt"), "w").write("no case\n")
    open(os.path.join(d, "broken.json"), "w").write('{"model": {')


PATH = {"a.json": "testData/maxwellInputs/alpha/alpha.json", "b.json": "testData/maxwellInputs/beta/beta.json",
        "bad.json": "testData/maxwellInputs/bad/bad.json"}
NAMES = ["a.json", "b.json", "post-a.json", "again-a.json", "post-b.json", "gone.json", "bad.json", "broken.json", "notes.txt", "post-none.json"]


def invocation(rnd, prog, good):
    """Words for a program; a word that asks for something is not followed by another such word."""
    ws = []
    n = rnd.choice([0, 1, 2, 2, 3, 3, 4, 5])
    fits = ["a.json", "b.json"] if prog == "solver" else ["post-a.json", "again-a.json", "post-b.json"]
    while len(ws) < n:
        k = rnd.random()
        if k < 0.5:
            ws += ["-i", rnd.choice(fits) if rnd.random() < good else rnd.choice(NAMES)]
        elif k < 0.62 and prog == "solver":
            ws += [rnd.choice(["-d", "--device"]), rnd.choice(["cpu", "cpu", "omp", "omp", "what", "a.json"])]
        elif k < 0.7:
            ws += ["-h"]
        elif k < 0.85:
            ws += [rnd.choice(["-x", "extra", "a.json", "post-b.json", "--verbose", "-I"])]
        else:
            ws += ["-i", rnd.choice(fits)]
    if rnd.random() < 0.08:
        ws += ["-i"] if prog == "post" or rnd.random() < 0.5 else ["-d"]
    return ws


def spaced(rnd):
    n, at, gap = rnd.choice([1, 2, 3]), rnd.randint(0, 3), rnd.randint(1, 3)
    return [at + gap * i for i in range(n)]


def make(rnd):
    asks = {f: {"phis": spaced(rnd), "freqs": [x + 1 for x in spaced(rnd)]} for f in ("post-a.json", "again-a.json", "post-b.json")}
    runs = [{"prog": "solver", "words": ["-i", "a.json"]}] if rnd.random() < 0.4 else []
    while len(runs) < 7:
        p = rnd.choice(["solver", "post"])
        runs.append({"prog": p, "words": invocation(rnd, p, 0.6)})
    return {"ranks": rnd.choice([1, 1, 1, 2, 3]), "asks": asks, "runs": runs}


def files(d):
    r = {}
    for w, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(w, f)
            st = os.stat(p)
            r[os.path.relpath(p, d)] = (st.st_mtime_ns, st.st_size, st.st_ino)
    return r


def spot_end(d, name):
    """The last time in the records of the point."""
    last = None
    for w, _, fs in os.walk(os.path.join(d, "Exports")):
        if "/" + name + "/" in w + "/" and "PointProbes" in w:
            for f in fs:
                with open(os.path.join(w, f)) as o:
                    rows = [x.split() for x in o if x.strip()]
                try:
                    last = float(rows[-1][0]) * 299792458.0
                except ValueError:
                    pass
    return last is not None and abs(last - FINAL) < 1e-4 * FINAL


def left(d, after, new, kind):
    """The rows that are there for a case whose rows are new."""
    rows = []
    changed = {f.split("/")[2] for f in new if kind in f}
    for f in after:
        if kind in f and f.startswith("Exports/") and f.split("/")[2] in changed:
            with open(os.path.join(d, f)) as o:
                for x in o.readlines()[1:]:
                    v = list(map(float, x.split()))
                    rows.append([round(v[1] / 0.25), round(v[2] / 5e7)])
    return sorted(rows)


def play(c, exes, s, per=60):
    d = os.path.join(c.tmp("launch"))
    os.makedirs(d)
    lay(d, s)
    ev = []
    try:
        for r in s["runs"]:
            before = files(d)
            env = dict(os.environ, OMP_NUM_THREADS="1", MINIMPI_SIZE=str(s["ranks"] if r["prog"] == "solver" else 1), MINIMPI_TIMEOUT="20")
            p = subprocess.Popen([exes[r["prog"]]] + [PATH.get(w, w) for w in r["words"]], cwd=d, env=env, stdin=subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                out = p.communicate(timeout=per)[0].decode(errors="replace")
                status = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                out = p.communicate()[0].decode(errors="replace")
                status = None
            after = files(d)
            new = sorted(f for f in after if before.get(f) != after[f])
            # the post-processor takes away what it left before
            gone = [f for f in before if f not in after and not (r["prog"] == "post" and ("/rcs/" in f or "/farfield/" in f))]
            results = [f for f in new if f.startswith("Exports/")]
            cases = sorted({f.split("/")[2] for f in results if f.count("/") > 1})
            rows, far = left(d, after, results, "/rcs/"), left(d, after, results, "/farfield/")
            ev.append({"e": "start", "prog": r["prog"]})
            ev += [{"e": "word", "w": w} for w in r["words"]]
            # meshes are repaired in place when they are loaded
            other = [f for f in new if not f.startswith("Exports/") and not f.endswith(".msh")]
            ev.append({"e": "exit", "how": "stuck" if status is None else "fine" if status == 0 else "failed",
                       "help": all(h in out for h in HELP), "cases": cases, "other": other + gone,
                       "whole": [n for n in cases if spot_end(d, n)], "rows": rows, "far": far})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ev


def run(c):
    a, b = c.build("launch", "rcslaunch")
    exes = {"solver": a, "post": b}
    c.model("LaunchMC", "LaunchMC" if c.quick else "LaunchMCDeep", must_cover=("Say",), workers=4)
    rnd = random.Random(c.seed)
    ss = [make(rnd) for _ in range(64 if c.quick else 600)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        tr = list(ex.map(lambda s: play(c, exes, s), ss))
    ends = [e for t in tr for e in t if e["e"] == "exit"]
    c.extra["programs started"] = len(ends)
    c.extra["ran"] = sum(e["how"] == "fine" and bool(e["cases"]) for e in ends)
    c.sample(ss[0], tr[0][:6])
    bad = c.validate("LaunchTrace", ss, tr, rerun=lambda s: play(c, exes, s),
                     describe=lambda s, ev, t, n: "%d rank(s), %s: %s" % (s["ranks"], [
                         (x.get("prog") or x.get("w") or x.get("how")) for x in t[:n]], ev))
    end = lambda t, want: next((x for x in t if x["e"] == "exit" and want(x)), None)

    def silent(s, t):
        asked = False
        for x in t:
            asked = x["e"] != "start" and (asked or x.get("w") == "-h")
            if x["e"] == "exit" and x["how"] == "failed" and not asked:
                x["how"] = "fine"
                return t
        return None

    def other_case(s, t):
        x = end(t, lambda x: x["cases"] == ["alpha"])
        if not x:
            return None
        x["cases"] = x["whole"] = ["beta"]
        return t

    def cut(s, t):
        x = end(t, lambda x: x["whole"] and not x["rows"])
        if not x:
            return None
        x["whole"] = []
        return t

    def row(s, t):
        x = end(t, lambda x: len(x["rows"]) > 1)
        if not x:
            return None
        x["rows"].pop()
        return t

    def stale(s, t):
        x = end(t, lambda x: x["far"])
        if not x:
            return None
        x["far"].append([x["far"][-1][0] + 1, x["far"][-1][1]])
        return t

    def failed(s, t):
        x = end(t, lambda x: x["how"] == "fine" and x["cases"])
        if not x:
            return None
        x["how"] = "failed"
        return t
    if not bad:
        c.binding("LaunchTrace", ss, tr, [silent, other_case, cut, row, stale, failed])
