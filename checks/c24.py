"""C24: automatic delays of total-field sources (Delay.tla)."""
import math
import random

import meshes
import problems

C_SI = 299792458.0


def lattice(nodes, key):
    """Points of a face: corners, and a grid between them."""
    ps = [nodes[q] for q in key]
    if len(ps) == 1:
        return ps
    n = 4
    if len(ps) == 2:
        return [[a + (b - a) * i / n for a, b in zip(*ps)] for i in range(n + 1)]
    if len(ps) == 3:
        ws = [(i / n, j / n, 1 - (i + j) / n) for i in range(n + 1) for j in range(n + 1 - i)]
        return [[sum(w * p[d] for w, p in zip(k, ps)) for d in range(3)] for k in ws]
    # the corners in any order: opposite ones have the same middle
    a, b, c, d = min(([ps[0]] + list(o) for o in ((ps[1], ps[2], ps[3]), (ps[1], ps[3], ps[2]), (ps[2], ps[1], ps[3]))),
                     key=lambda q: sum(abs(q[0][i] + q[2][i] - q[1][i] - q[3][i]) for i in range(3)))
    return [[(1 - s) * (1 - t) * a[i] + s * (1 - t) * b[i] + s * t * c[i] + (1 - s) * t * d[i] for i in range(3)]
            for s in (0, .25, .5, .75, 1) for t in (0, .25, .5, .75, 1)]


def region(rnd, n):
    """Any part of the mesh: its surface need not be closed here."""
    n = (list(n) + [1, 1])[:3]
    cells = [(i, j, k) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]
    if n[1] == n[2] == 1:      # a stretch, for lines have two points at most
        lo = rnd.randint(0, n[0] - 1)
        return set(cells[lo:rnd.randint(lo + 1, n[0])])
    return {b for b in cells if rnd.random() < 0.5}


def make(rnd):
    dipole = rnd.random() < 0.35
    kind = rnd.choice(["tet", "hex"] if dipole else ["seg", "tri", "quad", "tet", "hex"])
    dim = {"seg": 1, "tri": 2, "quad": 2, "tet": 3, "hex": 3}[kind]
    n = [rnd.randint(3, 6)] if dim == 1 else [rnd.randint(1, 3) for _ in range(dim)]
    if dim > 1 and math.prod(n) == 1:
        n[0] = 2
    size = [rnd.choice([0.5, 1.0, 1.0, 3.0]) for _ in range(3)]
    while True:
        off = [rnd.choice([0.0, -1.25, 4.5, -20.0, 37.0]) if not dipole else rnd.uniform(-1.5, 0.5) for _ in range(3)]
        place = lambda p: [(a + o) * s if d < dim else 0.0 for d, (a, o, s) in enumerate(zip(p, off, size))]
        ins = region(rnd, n)
        tag = rnd.choice([lambda p: 2, lambda p: 2 + (hash(tuple(p)) % 2)])
        if rnd.random() < 0.3:     # the border of the mesh is the surface
            m = meshes.box(kind, n, outer=lambda p: tag(p), place=place)
        else:
            m = meshes.box(kind, n, inner=lambda a, b, p: tag(p) if (a in ins) != (b in ins) else None, place=place)
        faces = [(key, t) for key, es, t in m["faces"] if t in (2, 3)]
        pts = [q for key, _ in faces for q in lattice(m["nodes"], key)]
        if len(pts) > 80:
            corners = [m["nodes"][q] for q in sorted({q for key, _ in faces for q in key})]
            pts = corners[:60] + rnd.sample(pts, 40)
        if pts and (not dipole or min(math.hypot(*q) for q in pts) > 0.2):
            break
    w = rnd.choice([0.125, 0.25, 0.5, 1.0, 2.0])
    given = rnd.random() < 0.35
    mag = {"spread": w}
    tags = sorted({t for _, t in faces})
    q = {"kind": "dipole" if dipole else "planewave", "given": given, "width": round(1000 * w), "mean": 0, "slack": max(3, round(1000 * w / 16))}
    run = {"spread": w, "points": pts, "given": given, "kind": q["kind"], "nodes": m["nodes"], "els": m["els"]}
    if dipole:
        dist = [math.hypot(*x) for x in pts]
        mag["length"] = run["length"] = rnd.choice([0.1, 1.0])
        if given:
            mag["mean"] = run["mean"] = rnd.choice([0.5, 1.0, 3.0, 6.0])
            q["mean"] = round(1000 * mag["mean"])
        src = {"type": "dipole", "tags": tags, "magnitude": mag}
        run["until"] = max(dist) + 12 * w
    else:
        while True:
            d = [rnd.choice([-1.0, 0.0, 1.0, 2.0, 0.6, -0.8]) if i < dim else 0.0 for i in range(3)]
            if any(d):
                break
        size = math.hypot(*d)
        pol = [0.0, 0.0, 1.0] if d[2] == 0 else ([d[1], -d[0], 0.0] if d[0] or d[1] else [0.0, 2.0, 0.0])
        dist = [sum(a * b for a, b in zip(x, d)) / size for x in pts]
        if rnd.random() < 0.3:
            mag["frequency"] = C_SI / w * rnd.choice([0.5, 1.0, 2.0])
        elif rnd.random() < 0.7:
            mag["type"] = "gaussian"
        if given:
            k = rnd.randint(1, 3)
            mean = [rnd.choice([-3.0, -1.0, 0.0, 1.5]) for _ in range(k)]
            mag["mean"] = mean
            q["mean"] = round(1000 * sum(a * b for a, b in zip(mean, d)) / size)
        src = {"type": "planewave", "tags": tags, "polarization": pol, "propagation": d, "magnitude": mag}
        run["until"] = max(dist) - min(dist) + 12 * w if not given else 11 * w
    q["dist"] = [round(1000 * x) for x in dist]
    bs = [{"tags": [1], "type": "PEC"}] if any(t == 1 for _, _, t in m["faces"]) else []
    run["case"] = problems.case(problems.VACUUM, bs, [src])
    return q, run


def run(c):
    exe = c.build("delay")
    c.model("DelayMC", "DelayMC" if c.quick else "DelayMCDeep", must_cover=("Look", "Agree", "Advance"), workers=4)
    rnd = random.Random(c.seed)
    pairs = [make(rnd) for _ in range(200 if c.quick else 3000)]
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample({"source": pairs[0][1]["case"]["sources"], "points": pairs[0][1]["points"][:3]}, tr[0])
    bad = c.validate("DelayTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0],
                     describe=lambda s, ev, t, n: "%s: quiet by %s tenths of decades, peaks at %s (%s)" % (
                         full[id(s)]["case"]["sources"], min(ev["quiet"]) if ev.get("quiet") else None,
                         sorted(ev["top"])[:5] if ev.get("top") else None, str(ev.get("what"))[:200]))

    def loud(s, t):
        if s["given"]:
            return None
        t[0]["quiet"][-1] = 40
        return t

    def early(s, t):
        if s["kind"] == "dipole" or t[0]["top"][0] <= 0 or (s["given"] and not s["width"] / 2 < t[0]["top"][0] < 9 * s["width"]):
            return None
        t[0]["top"][0] -= s["slack"] * 3
        return t

    def never(s, t):
        if s["given"]:
            return None
        t[0]["top"] = [-1 for _ in t[0]["top"]]
        return t

    def other(s, t):
        if not s["given"] or s["kind"] != "dipole":
            return None
        t[0]["differs"] = 4
        return t
    if not bad:
        c.binding("DelayTrace", ss, tr, [loud, early, never, other])
