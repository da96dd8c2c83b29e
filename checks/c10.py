"""C10: far fields from exported surfaces (SurfaceExport.tla)."""
import random

import surface


def run(c):
    exe = c.build("surface")
    c.model("FarFieldMC", "FarFieldMC" if c.quick else "FarFieldMCDeep", must_cover=("HandOut", "Record"), workers=4)
    rnd = random.Random(c.seed)
    pairs = []
    for i in range(60 if c.quick else 600):
        dim = 3 if i % 3 == 0 else 2
        g, r = surface.make(rnd, dim, [1, 2, 3, 2][i % 4], two=rnd.random() < 0.35)
        r["runs"] = [{}]
        for _ in range(2):
            q = {}
            if rnd.random() < 0.6:
                q["upto"] = rnd.randint(0, 9)
            if rnd.random() < 0.5:
                q["names"] = rnd.sample(["rank%d" % k for k in range(12)], r["ranks"])
            r["runs"].append(q)
        pairs.append((g, r))
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample({"scenario": ss[0], "far": tr[0][-1]})
    bad = c.validate("SurfaceExportTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=60, jobs=8,
                     describe=lambda s, ev, t, n: "far field of %s (%d ranks): %s" % (
                         {k: s[k] for k in ("dim", "boxes", "angles", "m")}, full[id(s)]["ranks"], str(ev)[:600]))

    def posted(t):
        return [e for e in t if e["e"] == "post" and not e["refused"]]

    def far(s, t):
        e = posted(t)
        if not e:
            return None
        e[0]["out"][0][0]["far"] += 144
        return t

    def rcs(s, t):
        e = [x for x in posted(t) if x["upto"] >= s["peak"]]
        if not e:
            return None
        e[0]["out"][-1][-1]["rcs"] += 1
        return t

    def later(s, t):
        """Everything used although a maximum time was asked for."""
        e = [x for x in posted(t) if x["upto"] < s["snaps"][-1]["t"]]
        w = [x for x in posted(t) if x["upto"] >= s["snaps"][-1]["t"]]
        if not e or not w or [[v["far"] for v in a] for a in e[0]["out"]] == [[v["far"] for v in a] for a in w[0]["out"]]:
            return None
        e[0]["out"] = w[0]["out"]
        return t

    def lost_face(s, t):
        k = [e for e in t if e["e"] == "file" and e["planes"]]
        k[0]["planes"].pop()
        return t

    def wrong_side(s, t):
        k = [e for e in t if e["e"] == "file" and e["planes"]]
        k[0]["planes"][0]["side"] *= -1
        return t if sum(len(e["planes"]) for e in k) > 1 else None
    if not bad:
        c.binding("SurfaceExportTrace", ss, tr, [far, rcs, later, lost_face, wrong_side])
