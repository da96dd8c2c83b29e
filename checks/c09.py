"""C09: interrupted surface exports (SurfaceExport.tla)."""
import random

import surface


def run(c):
    exe = c.build("surface")
    c.model("SurfaceExportMC", "SurfaceExportMC" if c.quick else "SurfaceExportMCDeep", must_cover=("WriteByte", "Finish", "CutOff", "Read"),
            workers=4)
    rnd = random.Random(c.seed)
    # what the files are made of, from an uninterrupted export
    plain = []
    for i in range(8 if c.quick else 40):
        while True:
            g, r = surface.make(rnd, 3 if i % 4 == 3 else 2, [1, 2, 2, 2, 3, 2, 1, 2][i % 8], judge="length", two=i % 2 == 1,
                                small=True, nsnaps=3)
            # states that differ, so that results of different lengths do
            if all(sum(abs(x) for f in s["c"] for x in f) >= 6 for s in g["snaps"]):
                break
        g["m"] = r["m"] = [1, 2, 3]
        plain.append((g, dict(r, runs=[])))
    first = c.drive(exe, [r for _, r in plain])
    pairs = []
    for (g, r), t in zip(plain, first):
        fs = [e for e in t if e["e"] == "file"]
        if not fs:
            pairs.append((g, r))
            continue
        start = [20 + 8 * f["points"] * (f["dim"] + 4) for f in fs]
        rec = [8 * (1 + 6 * f["dofs"]) for f in fs]
        end = [f["bytes"] for f in fs]
        runs = [{"cut": [a + n * b for a, b in zip(start, rec)]} for n in (1, 2, 3)]
        # every length around the borders of header, geometry and records, and others between
        for i in range(len(fs)):
            edge = [0, 20, start[i] - 8 * fs[i]["points"]] + [start[i] + n * rec[i] for n in range(4)]
            edge += [start[i] + n * rec[i] + 8 + 8 * k * fs[i]["dofs"] for n in range(3) for k in range(6)]
            cuts = sorted({min(max(e + d, 0), end[i]) for e in edge for d in (-8, -7, -1, 0, 1, 7, 8)})
            if c.quick:
                cuts = sorted(rnd.sample(cuts, min(len(cuts), 70)) + [rnd.randrange(end[i]) for _ in range(15)])
            else:
                cuts = range(0, end[i] + 1, 1 if i == 0 and end[i] < 3000 else 5)
            for k in cuts:
                cut = list(end)
                cut[i] = k
                for j in range(len(fs)):      # the others have got about as far
                    if j != i and rnd.random() < 0.7:
                        n = max(0, (k - start[i]) // rec[i]) if k >= start[i] else 0
                        cut[j] = min(end[j], max(0, start[j] + (n + rnd.choice([0, 0, 1])) * rec[j] + rnd.choice([0, 0, 3, 8, rec[j] // 2])))
                runs.append({"cut": cut})
                if rnd.random() < 0.1:
                    runs[-1]["upto"] = g["snaps"][-1]["t"]
        pairs.append((g, dict(r, runs=runs)))
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs], per=120)
    c.extra["interruptions"] = sum(e["e"] == "post" for t in tr for e in t)
    c.extra["told apart"] = sum(len({str(e["raw"]) for e in t if e["e"] == "post" and not e["refused"]}) == 3 for t in tr)
    c.extra["refused"] = sum(e["e"] == "post" and e["refused"] for t in tr for e in t)
    c.sample({"scenario": ss[0], "posts": [e for e in tr[0] if e["e"] == "post"][:3]})
    bad = c.validate("SurfaceExportTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]], per=120)[0], batch=50, jobs=8,
                     describe=lambda s, ev, t, n: "export of %s (files of %s bytes): %s" % (
                         {k: s[k] for k in ("dim", "boxes")}, [e["bytes"] for e in t if e["e"] == "file"], str(ev)[:600]))

    def one_more(s, t):
        """A cut inside the last record that gave what the whole file gives."""
        end = [e["bytes"] for e in t if e["e"] == "file"]
        whole = [e for e in t if e["e"] == "post" and e["sizes"] == end]
        part = [e for e in t if e["e"] == "post" and not e["refused"] and all(a < b for a, b in zip(e["sizes"], end))]
        if not whole or not part:
            return None
        part[-1]["raw"] = whole[0]["raw"]
        return t if part[-1]["sizes"] != end else None

    def accepted(s, t):
        bad_ = [e for e in t if e["e"] == "post" and e["refused"]]
        good = [e for e in t if e["e"] == "post" and not e["refused"]]
        if not bad_ or not good:
            return None
        i = t.index(bad_[0])
        t[i] = dict(good[0], sizes=bad_[0]["sizes"])
        return t

    def other_time(s, t):
        k = [i for i, e in enumerate(t) if e["e"] == "snapshot"]
        t[k[-1]]["time"] += 1
        return t

    def swapped(s, t):
        k = [e for e in t if e["e"] == "snapshot" and any(v[0] != v[1] for v in e["v"])]
        if not k:
            return None
        for v in k[0]["v"]:
            v[0], v[1] = v[1], v[0]
        return t
    if not bad:
        c.binding("SurfaceExportTrace", ss, tr, [one_more, accepted, other_time, swapped])
