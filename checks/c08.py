"""C08: repairing mesh files (MeshRepair.tla)."""
import random

import meshes

CUBE = [[x, y, z] for z in (0, 1, 2) for y in (0, 1, 2) for x in (0, 1, 2)]


def case(vol, bdr):
    return {"model": {"filename": "repair.msh", "materials": [{"tags": vol, "type": "vacuum"}],
                      "boundaries": [{"tags": bdr, "type": "PEC"}]}}


def tets(nx, ny, nz):
    v = lambda i, j, k: (k * (ny + 1) + j) * (nx + 1) + i + 1
    nodes = [[i, j, k] for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)]
    t = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                c = [v(i + a, j + b, k + d) for d in (0, 1) for b in (0, 1) for a in (0, 1)]
                for p in ((0, 1, 3, 7), (0, 5, 1, 7), (0, 3, 2, 7), (0, 2, 6, 7), (0, 4, 5, 7), (0, 6, 4, 7)):
                    t.append([c[q] for q in p])
    share = {}
    for k, c in enumerate(t):
        for q in range(4):
            f = tuple(sorted(c[:q] + c[q + 1:]))
            share.setdefault(f, []).append(c[:q] + c[q + 1:])
    faces = [f[0] for f in share.values() if len(f) == 1]
    return nodes, t, faces


def hexes(nx, ny, nz):
    v = lambda i, j, k: (k * (ny + 1) + j) * (nx + 1) + i + 1
    nodes = [[i, j, k] for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)]
    t, share = [], {}
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                c = [v(i, j, k), v(i + 1, j, k), v(i + 1, j + 1, k), v(i, j + 1, k),
                     v(i, j, k + 1), v(i + 1, j, k + 1), v(i + 1, j + 1, k + 1), v(i, j + 1, k + 1)]
                t.append(c)
                for p in ((3, 2, 1, 0), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (4, 5, 6, 7)):
                    f = [c[q] for q in p]
                    share.setdefault(tuple(sorted(f)), []).append(f)
    return nodes, t, [f[0] for f in share.values() if len(f) == 1]


def real(rnd):
    """A mesh that loads, with stray lower-dimensional entities mixed in."""
    kind = rnd.choice(["chain", "tri", "quad", "tet", "hex"])
    T = rnd.sample(range(1, 30), 6)
    vol, bdr = T[:2], T[2:4]
    ents, stray = [], []
    phys = lambda: rnd.randint(1, 40)
    extra = lambda: [1, 1] if rnd.random() < 0.2 else []
    if kind == "chain":
        n = rnd.randint(1, 5)
        nodes, els = meshes.chain(n, {0: bdr[0], n: bdr[1]})
        for e in els:
            ents.append({"t": e[0], "g": [phys(), e[2] if e[0] == 15 else rnd.choice(vol)], "n": e[3:]})
    elif kind in ("tri", "quad"):
        nodes, els, _, _ = meshes.grid(rnd.randint(1, 3), rnd.randint(1, 3), kind == "tri", {})
        for e in els:
            ents.append({"t": e[0], "g": [phys(), rnd.choice(bdr if e[0] == 1 else vol)] + extra(), "n": e[3:]})
        stray = [{"t": 15, "g": [phys(), rnd.randint(1, 40)], "n": [rnd.randint(1, len(nodes))]} for _ in range(rnd.randint(0, 4))]
    else:
        nodes, t, faces = (tets if kind == "tet" else hexes)(rnd.randint(1, 2), 1, 1)
        a, b = (4, 2) if kind == "tet" else (5, 3)
        ents = [{"t": b, "g": [phys(), rnd.choice(bdr)] + extra(), "n": f} for f in faces]
        ents += [{"t": a, "g": [phys(), rnd.choice(vol)] + extra(), "n": c} for c in t]
        stray = [{"t": 15, "g": [phys(), rnd.randint(1, 40)], "n": [rnd.randint(1, len(nodes))]} for _ in range(rnd.randint(0, 3))]
        stray += [{"t": 1, "g": [phys(), rnd.randint(1, 40)], "n": rnd.sample(range(1, len(nodes) + 1), 2)} for _ in range(rnd.randint(0, 3))]
    if rnd.random() < 0.5:
        rnd.shuffle(ents)
    for s in stray:
        ents.insert(rnd.randint(0, len(ents)), s)
    dim = {"chain": 1, "tri": 2, "quad": 2, "tet": 3, "hex": 3}[kind]
    vt = {15: 0, 1: 1, 2: 2, 3: 2, 4: 3, 5: 3}
    has = lambda d: sorted({e["g"][1] for e in ents if vt[e["t"]] == d})
    before = ["$PhysicalNames", "1", "%d 7 \"outer wall\"" % dim, "$EndPhysicalNames"] if rnd.random() < 0.3 else []
    after = ["$Periodic", "0", "$EndPeriodic"] if rnd.random() < 0.3 else []
    return {"nodes": nodes, "els": ents, "before": before, "after": after, "loads": rnd.choice([1, 2, 3]), "valid": True, "watch": rnd.random() < 0.5,
            "case": case(has(dim), has(dim - 1))}


def run(c):
    exe = c.build("repair")
    c.model("MeshRepairMC", "MeshRepairMC" if c.quick else "MeshRepairMCDeep", must_cover=("New", "Reload"), workers=4, timeout=850)
    # several ranks and interruptions: replacing the file is enough, rewriting it is not
    c.model("MeshRanksMC", "MeshRanksMC" if c.quick else "MeshRanksMCDeep", must_cover=("Begin", "Finish", "Barrier", "Read2"))
    if "OnlyRepaired" not in c.tlc("MeshRanksMC", "MeshRanksInPlace").invariant:
        raise RuntimeError("rewriting the file in place went unnoticed")
    rnd = random.Random(c.seed)
    files = c.generate("MeshRepairGen")
    files.sort(key=lambda f: repr(f))
    if c.quick:
        files = files[c.seed % 3::3] + [f for f in files if len(f) == 1]
    ss = [{"nodes": CUBE, "els": f, "before": [], "after": [], "loads": 2, "valid": False, "case": case([1], [2])} for f in files]
    ss += [real(rnd) for _ in range(150 if c.quick else 2000)]
    tr = c.drive(exe, ss)
    c.extra["moments watched"] = sum(e["stops"] for t in tr for e in t if e["e"] == "watched")
    c.sample(ss[-1]["els"][:4], tr[-1][:1])
    slim = [{"els": s["els"]} for s in ss]
    full = {id(a): b for a, b in zip(slim, ss)}
    bad = c.validate("MeshRepairTrace", slim, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0])

    first = lambda t: next(e for e in t if e["e"] == "file")

    def torn(s, t):
        for e in t:
            if e["e"] == "moment" and len(e["els"]) > 1:
                e["els"].pop()
                return t
        return None

    def lost(s, t):
        if len(first(t)["els"]) < 2:
            return None
        first(t)["els"].pop()
        first(t)["count"] -= 1
        return t

    def tag(s, t):
        first(t)["els"][0]["g"][1] += 1
        return t

    def order(s, t):
        n = first(t)["els"][0]["n"]
        if len(n) < 2 or n[0] == n[1]:
            return None
        n[0], n[1] = n[1], n[0]
        return t

    def count(s, t):
        first(t)["count"] += 1
        return t
    if not bad:
        c.binding("MeshRepairTrace", slim, tr, [lost, tag, order, count, torn])
