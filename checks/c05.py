"""C05: declarations by tag (Regions.tla)."""
import random

import meshes
import problems


def split(rnd, tags):
    """The tags in random lists, in random order."""
    tags = rnd.sample(tags, len(tags))
    r = []
    while tags:
        k = rnd.randint(1, min(3, len(tags)))
        r.append(tags[:k])
        tags = tags[k:]
    return r


def make(rnd, op, sizes):
    n = rnd.choice(sizes)
    dim = len(n)
    kind = {1: "seg", 2: "quad", 3: "hex"}[dim]
    lines = [[0] for _ in range(3)]
    for d in range(dim):
        for _ in range(n[d]):
            lines[d].append(lines[d][-1] + rnd.choice([1, 2]))
    vols = rnd.sample(range(1, 8), rnd.choice([1, 2, 3, 4]))
    outs = rnd.sample(range(1, 12), rnd.choice([1, 2, 3, 4]))
    ins = rnd.sample(range(1, 12), 3)
    apart = rnd.random() < 0.7
    if apart:
        ins = [t for t in ins if t not in outs] or [12]
    share = rnd.choice([0, 0.3, 0.6])
    vol = {}
    m = meshes.box(kind, n, vol=lambda b: vol.setdefault(b, rnd.choice(vols)), outer=lambda p: rnd.choice(outs),
                   inner=lambda a, b, p: rnd.choice(ins) if rnd.random() < share else None,
                   place=lambda p: [float(lines[d][p[d]]) for d in range(3)])
    used = sorted({t for _, _, t in m["faces"] if t})
    have = sorted({vol[b] for _, b in m["cells"]})
    say_m = [t for t in have if rnd.random() < 0.75]
    say_b = [t for t in used if rnd.random() < 0.8]
    odd = rnd.random()
    if odd < 0.06:
        say_m.append(rnd.choice([t for t in range(1, 10) if t not in have]))
    elif odd < 0.12:
        say_b.append(rnd.choice([t for t in range(1, 15) if t not in used]))
    hes = op == "hesthaven"
    mats = [{"tags": ts, "eps": rnd.choice([1, 2, 4]) if not hes else 1, "mu": rnd.choice([1, 2, 4]) if not hes else 1,
             "sig": rnd.choice([0, 0, 1, 3]) if op == "global" else 0} for ts in split(rnd, say_m)]
    bds = [{"tags": ts, "type": rnd.choice(problems.WALLS)} for ts in split(rnd, say_b)]
    js = []
    for e in mats:
        d = {"tags": e["tags"], "type": "dielectric"}
        for k, v, q in (("relative_permittivity", float(e["eps"]), 1), ("relative_permeability", float(e["mu"]), 1),
                        ("bulk_conductivity", e["sig"] / problems.Z0, 0)):
            if v != q or rnd.random() < 0.5:     # defaults may be left out
                d[k] = v
        js.append(d)
    ne = len(m["cells"])
    nb = [[0] * (2 * dim) for _ in range(ne)]
    ftag = [[0] * (2 * dim) for _ in range(ne)]
    for key, es, t in m["faces"]:
        pts = [m["pts"][q] for q in key]
        d = [k for k in range(dim) if len({p[k] for p in pts}) == 1][0]
        for e in es:
            f = 2 * d + (1 if pts[0][d] > m["cells"][e][1][d] else 0)
            if len(es) == 2:
                nb[e][f] = (es[0] if es[1] == e else es[1]) + 1
            ftag[e][f] = t or 0
    order = rnd.choice([1, 1, 2]) if dim < 3 else 1
    alpha2 = rnd.choice([0, 1, 2]) if not hes else rnd.choice([1, 2])
    val = lambda: rnd.choice([-4, -3, -2, -1, 1, 2, 3, 4])
    g = {"dim": dim, "order": order, "alpha2": alpha2, "S": 2048, "nb": nb,
         "len": [[lines[d][b[d] + 1] - lines[d][b[d]] for d in range(dim)] for _, b in m["cells"]],
         "x": [[[val() for _ in range(6)] for _ in range((order + 1) ** dim)] for _ in range(ne)]}
    run = {"mode": "boxes", "case": problems.case(js, bds), "nodes": m["nodes"], "els": m["els"], "centres": problems.centres(m),
           "dim": dim, "x": g["x"], "S": 2048, "t": 0.0, "opts": {"op": op, "order": order, "alpha": alpha2 / 2, "basis": 1}}
    return {"g": g, "ctag": [vol[b] for _, b in m["cells"]], "ftag": ftag, "mats": mats, "bds": bds}, run


def run(c):
    exe = c.build("scheme")
    c.model("RegionsMC", "RegionsMC" if c.quick else "RegionsMCDeep", must_cover=("DeclareMaterial", "DeclareWall"), workers=4)
    rnd = random.Random(c.seed)
    pairs = []
    for i in range(200 if c.quick else 1500):
        op = ("global", "maxwell", "global", "maxwell", "hesthaven")[i % 5]
        small = [[4], [3, 2], [2, 2], [2, 2, 1]] if c.quick else [[6], [3, 3], [4, 2], [2, 2, 2]]
        pairs.append(make(rnd, op, [[2, 2], [3, 2]] if op == "hesthaven" else small))
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample({"declared": {k: ss[0][k] for k in ("mats", "bds", "ctag", "ftag")}, "rates": tr[0][0]})
    c.extra["refused"] = sum(t[0]["e"] == "throw" for t in tr)
    bad = c.validate("RegionsTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=15, jobs=8,
                     describe=lambda s, ev, t, n: "declarations did not land as written: %s %s" % (
                         {k: s[k] for k in ("mats", "bds", "ctag", "ftag")}, str(ev)[:200]))

    def other_material(s, t):
        if t[0]["e"] != "boxes" or not s["mats"] or s["mats"][0]["tags"][0] not in s["ctag"]:
            return None
        i = s["ctag"].index(s["mats"][0]["tags"][0])
        t[0]["r"][i][0] = [v * 2 + 2 for v in t[0]["r"][i][0]]
        return t

    def taken(s, t):
        if t[0]["e"] != "throw":
            return None
        return [{"e": "boxes", "r": [[[0] * 6 for _ in c] for c in s["g"]["x"]]}]
    if not bad:
        c.binding("RegionsTrace", ss, tr, [other_material, taken])
