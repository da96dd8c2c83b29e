"""C07: constrained partitioning (Partition.tla)."""
import random

import meshes


def case(tfsf, sgbc, walls, far, dim):
    b = [{"tags": [1], "type": "PEC"}]
    src = []
    for t, kind in walls:
        b.append({"tags": [t], "type": kind})
    for k, t in enumerate(tfsf):
        src.append({"type": "planewave", "tags": [t], "propagation": [1.0, 0.0, 0.0], "polarization": [0.0, 1.0, 0.0],
                    "magnitude": {"type": "gaussian", "spread": 1.0, "mean": -5.0}})
    for t in sgbc:
        b.append({"tags": [t], "type": "SGBC", "material": {"bulk_conductivity": 10.0, "material_width": 0.01}})
    return {"model": {"filename": "split.msh", "materials": [{"tags": [1], "type": "vacuum"}], "boundaries": b},
            "sources": src,
            "probes": {"rcssurface": [{"name": "s%d" % t, "tags": [t], "steps": 1} for t in far]}}


def make(rnd, small):
    kind = rnd.choice(["chain", "quad", "tri"])
    ranks = rnd.choice([1, 2, 2, 3, 4, 5, 7])
    # tag 6 means nothing; 7 and 8 are walls inside, 9 a far-field surface
    used = [2, 3, 4, 5, 6, 7, 8, 9]
    declared = {"tfsf": rnd.sample([2, 3], rnd.randint(0, 2)), "sgbc": rnd.sample([4, 5], rnd.randint(0, 2)),
                "walls": rnd.sample([7, 8], rnd.randint(0, 2)), "far": rnd.sample([9], rnd.randint(0, 1))}
    if rnd.random() < 0.5:
        used = used[:5]
    prob = rnd.choice([0.05, 0.2, 0.5, 0.9])
    if kind == "chain":
        n = rnd.randint(2, 6 if small else 12)
        pts = {0: 1, n: 1}
        pairs = []
        for v in range(1, n):
            if rnd.random() < prob:
                pts[v] = rnd.choice(used)
                pairs.append((v - 1, v, pts[v]))
        nodes, els = meshes.chain(n, pts)
        ne, dim = n, 1
    else:
        nx, ny = rnd.randint(2, 3 if small else 5), rnd.randint(1, 3 if small else 4)
        tri = kind == "tri"
        _, _, _, share = meshes.grid(nx, ny, tri, {})
        edges, pairs = {}, []
        for e, ks in sorted(share.items()):
            if len(ks) == 2 and rnd.random() < prob:
                edges[e] = rnd.choice(used)
                pairs.append((ks[0], ks[1], edges[e]))
        # tagged border edges have one element only and constrain nothing
        nodes, els, cells, _ = meshes.grid(nx, ny, tri, edges)
        ne, dim = len(cells), 2
    present = {p[2] for p in pairs}
    tf = [t for t in declared["tfsf"] if t in present]
    sg = [t for t in declared["sgbc"] if t in present]
    wa = [(t, rnd.choice(["PEC", "PMC", "SMA"])) for t in declared["walls"] if t in present]
    fa = [t for t in declared["far"] if t in present and dim > 1]
    on = set(tf) | set(sg) | {t for t, _ in wa} | set(fa)
    first = [rnd.randrange(ranks) for _ in range(ne)]
    return {"ranks": ranks, "first": first, "pairs": [[a + 1, b + 1] for a, b, t in pairs if t in on],
            "case": case(tf, sg, wa, fa, dim), "nodes": nodes, "els": els}


def run(c):
    exe = c.build("partition")
    c.model("PartitionMC", "PartitionMC" if c.quick else "PartitionMCDeep", must_cover=("Begin", "Group", "PlaceOne", "Settle"), workers=4, timeout=850)
    rnd = random.Random(c.seed)
    ss = [make(rnd, i % 2 == 0) for i in range(300 if c.quick else 4000)]
    tr = c.drive(exe, ss)
    slim = [{k: s[k] for k in ("ranks", "first", "pairs")} for s in ss]
    c.sample(slim[0], tr[0])
    byid = {id(a): b for a, b in zip(slim, ss)}
    bad = c.validate("PartitionTrace", slim, tr, rerun=lambda s: c.drive(exe, [byid[id(s)]])[0])

    def move(s, t):
        if s["ranks"] < 2:
            return None
        free = [e for e in range(len(s["first"])) if all(e + 1 not in p for p in s["pairs"])]
        if not free:
            return None
        t[0]["part"][free[0]] = (t[0]["part"][free[0]] + 1) % s["ranks"]
        return t

    def cut(s, t):
        if s["ranks"] < 2 or not s["pairs"]:
            return None
        e = s["pairs"][0][0] - 1
        t[0]["part"][e] = (t[0]["part"][e] + 1) % s["ranks"]
        return t

    def beyond(s, t):
        t[0]["part"][0] = s["ranks"]
        return t
    if not bad:
        c.binding("PartitionTrace", slim, tr, [move, cut, beyond])
