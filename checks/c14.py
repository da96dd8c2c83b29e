"""C14: frames of layered faces (LayerFrame.tla)."""
import math
import random

import meshes
import problems
from problems import VACUUM, Z0, case


def rotation(rnd, dim):
    if dim == 1:
        return [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    q = [1, 0, 0, 0]
    how = rnd.random()
    if how > 0.2:
        q = [rnd.randint(-3, 3) for _ in range(4)] if dim == 3 else [rnd.randint(-3, 3), 0, 0, rnd.randint(-3, 3)]
    if not any(q):
        q = [1, 0, 0, 1]
    a, b, c, d = q
    k = a * a + b * b + c * c + d * d
    return [[(a * a + b * b - c * c - d * d) / k, 2 * (b * c - a * d) / k, 2 * (b * d + a * c) / k],
            [2 * (b * c + a * d) / k, (a * a - b * b + c * c - d * d) / k, 2 * (c * d - a * b) / k],
            [2 * (b * d - a * c) / k, 2 * (c * d + a * b) / k, (a * a - b * b - c * c + d * d) / k]]


def make(rnd, kind):
    n = {"seg": [5], "quad": [3, 2], "tri": [2, 2], "hex": [2, 2, 1], "tet": [2, 1, 1]}[kind]
    dim = len(n)
    R = rotation(rnd, dim)
    shear = [[1.0 if i == j else (rnd.choice([0, 0, 0.25, -0.5]) if i < j < dim else 0.0) for j in range(3)] for i in range(3)]
    jig = {}

    def place(p):
        p = [float(x) for x in p]
        if kind in ("tri", "tet"):
            s = jig.setdefault(tuple(p), [rnd.uniform(-0.2, 0.2) if d < dim else 0.0 for d in range(3)])
            p = [a + b for a, b in zip(p, s)]
        p = [sum(shear[i][j] * p[j] for j in range(3)) for i in range(3)]
        return [sum(R[i][j] * p[j] for j in range(3)) for i in range(3)]
    perm = (lambda k: rnd.sample(range(k), k)) if dim > 1 else None
    faces = {}

    def inner(a, b, p):
        if len(faces) < 2 and rnd.random() < 0.4:
            faces[tuple(p)] = 31 + len(faces)
            return faces[tuple(p)]
        return None
    m = meshes.box(kind, n, outer=lambda p: 11, inner=inner, place=place, order=perm)
    if not faces:
        return make(rnd, kind)
    cen = problems.centres(m)
    out = []
    for key, es, t in m["faces"]:
        if len(es) != 2 or not t or t < 31:
            continue
        pts = [m["nodes"][q] for q in key]
        if dim == 1:
            v = [1.0, 0.0, 0.0]
        elif dim == 2:
            v = [pts[1][1] - pts[0][1], pts[0][0] - pts[1][0], 0.0]
        else:
            a = [pts[1][i] - pts[0][i] for i in range(3)]
            b = [pts[2][i] - pts[0][i] for i in range(3)]
            v = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        h = math.sqrt(sum(x * x for x in v))
        s = 1 if sum(v[i] * (cen[es[1]][i] - cen[es[0]][i]) for i in range(3)) > 0 else -1
        out.append({"a": es[0] + 1, "b": es[1] + 1, "n": [round(s * x / h * 4096) for x in v], "k": 4096})
    els = []
    for e in m["els"]:
        if e[1] >= 31 and kind != "seg" and rnd.random() < 0.5:
            e = e[:3] + e[3:][::-1]
        els.append(e)
    p = rnd.choice([1, 1, 2])
    b = [{"tags": [t], "type": "SGBC", "layers": [{"relative_permittivity": 2.0, "bulk_conductivity": 1.0 / Z0, "material_width": 0.25,
                                                   "num_of_segments": 2, "order": p}]} for t in sorted(set(faces.values()))]
    cs = case(VACUUM, b + [{"tags": [11], "type": rnd.choice(["PEC", "PMC", "SMA"])}])
    order = rnd.choice([1, 2]) if dim < 3 else 1
    run = {"mode": "frame", "problem": {"case": cs, "nodes": m["nodes"], "els": els}, "centres": cen, "seed": rnd.randrange(1000),
           "inner": 2 * (p + 1), "opts": {"op": "global", "order": order, "alpha": rnd.choice([0.0, 0.5, 1.0, 1.0]), "dt": 1 / 64}}
    return {"kind": kind, "faces": out}, run


def run(c):
    exe = c.build("slab")
    c.model("LayerFrameMC", "LayerFrameMC" if c.quick else "LayerFrameMCDeep", must_cover=("Send", "Bring"), workers=4)
    rnd = random.Random(c.seed)
    kinds = ["tri", "tet", "quad", "hex", "tet", "tri", "hex", "seg"]
    pairs = [make(rnd, kinds[i % 8]) for i in range(56 if c.quick else 560)]
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs], per=60)
    c.extra["frames"] = sum(e["e"] == "frame" for t in tr for e in t)
    c.sample({"scenario": ss[0], "events": tr[0][:2]})
    bad = c.validate("LayerFrameTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]], per=60)[0], batch=200, jobs=8,
                     describe=lambda s, ev, t, n: "%s: %s" % (s, str(ev)[:400]))

    def first(t):
        return [e for e in t if e["e"] == "frame"][0]

    def mirrored(s, t):
        for m in first(t)["maps"]:
            for col in m:
                col[1] = -col[1]
        return t

    def backwards(s, t):
        for m in first(t)["maps"]:
            for col in m:
                col[0], col[1] = -col[0], -col[1]
        return t

    def only_h(s, t):
        m = first(t)["maps"]
        for col in m[1]:
            col[0], col[2] = col[2], -col[0]
        return t

    def lost(s, t):
        e = t[-1]
        i = max(range(len(e["plain"])), key=lambda k: abs(e["plain"][k]))
        e["layered"][i] += 5
        return t
    if not bad:
        c.binding("LayerFrameTrace", ss, tr, [mirrored, backwards, only_h, lost])
