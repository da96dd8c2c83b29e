"""Random problems (mesh, materials, boundaries) for the checks on rates of change."""
import meshes


def block_edges(nx, ny, x0, y0, x1, y1, tag):
    v = lambda i, j: j * (nx + 1) + i
    r = {}
    for i in range(x0, x1):
        r[(v(i, y0), v(i + 1, y0))] = tag
        r[(v(i, y1), v(i + 1, y1))] = tag
    for j in range(y0, y1):
        r[(v(x0, j), v(x0, j + 1))] = tag
        r[(v(x1, j), v(x1, j + 1))] = tag
    return r


def case(materials, boundaries, sources=()):
    return {"model": {"filename": "problem.msh", "materials": materials, "boundaries": boundaries}, "sources": list(sources)}


VACUUM = [{"tags": [1], "type": "vacuum"}]


def walls_case(vols, bcs, materials):
    """vols: tags present; bcs: {tag: condition}; materials: {tag: (eps, mu, sigma)}."""
    mats = []
    for t in vols:
        e, m, s = materials[t]
        if (e, m, s) == (1, 1, 0):
            mats.append({"tags": [t], "type": "vacuum"})
        else:
            mats.append({"tags": [t], "type": "dielectric", "relative_permittivity": float(e),
                         "relative_permeability": float(m), "bulk_conductivity": s})
    by = {}
    for t, b in sorted(bcs.items()):
        by.setdefault(b, []).append(t)
    return case(mats, [{"tags": ts, "type": b} for b, ts in sorted(by.items())])


import math

Z0 = 4e-7 * math.pi * 299792458.0
WALLS = ["PEC", "PMC", "SMA"]


def centres(m):
    r = []
    for c, _ in m["cells"]:
        r.append([sum(m["nodes"][q][d] for q in c) / len(c) for d in range(3)])
    return r


def setup(rnd, kind, n, place, interior=0.25, conducting=True, materials=True, order=None, turn=None):
    """A mesh with random volume tags, outer walls and interior walls.  Returns the mesh, the case, and per
    cell material and per face wall."""
    tagged = {}
    dim = len(n)
    mats = {}
    for t in (1, 2, 3):
        e = rnd.choice([1, 2, 4]) if materials else 1
        u = rnd.choice([1, 2, 4]) if materials else 1
        s = rnd.choice([0, 0, 1, 3]) if conducting and materials else 0
        mats[t] = (e, u, s)
    vol = {}

    def vtag(b):
        return vol.setdefault(b, rnd.choice([1, 2, 3]))

    # outer tags 11..13, interior tags 21..23
    def outer(p):
        return rnd.choice([11, 12, 13])

    def inner(a, b, p):
        return rnd.choice([21, 22, 23]) if rnd.random() < interior else None
    m = meshes.box(kind, n, vol=vtag, outer=outer, inner=inner, place=place, order=order, turn=turn)
    used = {t for _, _, t in m["faces"] if t}
    bcs = {t: rnd.choice(WALLS) for t in used}
    vols = sorted({vtag(b) for _, b in m["cells"]})
    js = walls_case(vols, bcs, {t: (mats[t][0], mats[t][1], mats[t][2] / Z0) for t in mats})
    cell = [mats[vtag(b)] for _, b in m["cells"]]
    return m, js, cell, bcs


def boxes_problem(rnd, op, sizes):
    n = rnd.choice(sizes)
    dim = len(n)
    kind = {1: "seg", 2: "quad", 3: "hex"}[dim]
    lines = [[0] for _ in range(3)]
    for d in range(dim):
        for _ in range(n[d]):
            lines[d].append(lines[d][-1] + rnd.choice([1, 2]))
    place = lambda p: [float(lines[d][p[d]]) for d in range(3)]
    hes = op == "hesthaven"
    order = rnd.choice([1, 1, 2]) if dim < 3 else 1
    m, js, cell, bcs = setup(rnd, kind, n, place, interior=rnd.choice([0, 0.3]), materials=not hes and rnd.random() < 0.8,
                             conducting=op == "global")
    ne = len(m["cells"])
    idx = {b: i for i, (_, b) in enumerate(m["cells"])}
    nb = [[0] * (2 * dim) for _ in range(ne)]
    wall = [[""] * (2 * dim) for _ in range(ne)]
    for key, es, t in m["faces"]:
        pts = [m["pts"][q] for q in key]
        d = [k for k in range(dim) if len({p[k] for p in pts}) == 1][0]
        for e in es:
            up = pts[0][d] > m["cells"][e][1][d]
            f = 2 * d + (1 if up else 0)
            if len(es) == 2:
                nb[e][f] = (es[0] if es[1] == e else es[1]) + 1
            if t:
                wall[e][f] = bcs[t]
    order_n = (order + 1) ** dim
    alpha2 = rnd.choice([0, 1, 2])
    g = {"dim": dim, "order": order, "alpha2": alpha2, "S": 2048, "nb": nb, "wall": wall,
         "len": [[lines[d][b[d] + 1] - lines[d][b[d]] for d in range(dim)] for _, b in m["cells"]],
         "eps": [c[0] for c in cell], "mu": [c[1] for c in cell], "sig": [c[2] for c in cell],
         "x": [[[rnd.randint(-4, 4) for _ in range(6)] for _ in range(order_n)] for _ in range(ne)]}
    if rnd.random() < 0.15:      # one component only
        k = rnd.randrange(6)
        g["x"] = [[[u[i] if i == k else 0 for i in range(6)] for u in c] for c in g["x"]]
    run = {"mode": "boxes", "case": js, "nodes": m["nodes"], "els": m["els"], "centres": centres(m), "dim": dim,
           "x": g["x"], "S": 2048, "t": rnd.choice([0.0, 0.7]), "opts": {"op": op, "order": order, "alpha": alpha2 / 2, "basis": 1}}
    return {"mode": "boxes", "g": g}, run


def sub3(a, b):
    return [a[i] - b[i] for i in range(3)]


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def area(nodes, key, dim, kind):
    """Area vector of a face (unoriented) by its sorted node list."""
    p = [nodes[q] for q in key]
    if dim == 1:
        return [1.0, 0.0, 0.0]
    if dim == 2:
        t = sub3(p[1], p[0])
        return [t[1], -t[0], 0.0]
    if kind == "tet":
        return [x / 2 for x in cross3(sub3(p[1], p[0]), sub3(p[2], p[0]))]
    return cross3(sub3(p[1], p[0]), sub3(p[2], p[0]))     # parallelogram: sorted nodes 0,1,2 are a corner of it


def volume(nodes, c, kind):
    p = [nodes[q] for q in c]
    if kind == "seg":
        return p[1][0] - p[0][0]
    if kind in ("tri", "quad"):
        s = 0.0
        for i in range(len(p)):
            a, b = p[i], p[(i + 1) % len(p)]
            s += a[0] * b[1] - a[1] * b[0]
        return s / 2
    det = lambda a, b, d: sum(x * y for x, y in zip(a, cross3(b, d)))
    if kind == "tet":
        return abs(det(sub3(p[1], p[0]), sub3(p[2], p[0]), sub3(p[3], p[0]))) / 6
    return abs(det(sub3(p[1], p[0]), sub3(p[3], p[0]), sub3(p[4], p[0])))


def skewed(rnd, dim, kind):
    """Moves the nodes: an affine map for boxes, plus a shift of single nodes for simplices."""
    k = rnd.choice([0.0, 0.25, 0.5])
    j = rnd.choice([0.0, 0.2])
    memo = {}

    def place(p):
        q = [p[0] + (k * p[1] if dim > 1 else 0), p[1] + (0.25 * p[2] if dim > 2 else 0), p[2] * 1.0]
        if kind in ("tri", "tet", "seg"):
            s = memo.setdefault(tuple(p), [rnd.uniform(-j, j) if d < dim else 0.0 for d in range(3)])
            q = [a + b for a, b in zip(q, s)]
        return q
    return place


def general_problem(rnd, op, mode, kinds=("seg", "tri", "quad", "tet", "hex"), orders=None, conducting=None, big=False):
    kind = rnd.choice(kinds)
    dim = {"seg": 1, "tri": 2, "quad": 2, "tet": 3, "hex": 3}[kind]
    if mode == "smooth":
        n = {"seg": [4], "tri": [3, 3], "quad": [3, 3], "tet": [2, 2, 2], "hex": [3, 3, 3]}[kind]
    else:
        n = {"seg": [4], "tri": [2, 2], "quad": [2, 2], "tet": [1, 1, 1], "hex": [2, 1, 1]}[kind]
        if big:
            n = {"seg": [6], "tri": [3, 2], "quad": [3, 3], "tet": [2, 1, 1], "hex": [2, 2, 1]}[kind]
    order = rnd.choice({"seg": [1, 2, 3, 4], "tri": [1, 2, 3], "quad": [1, 2, 3], "tet": [1, 2], "hex": [1, 2] if mode != "smooth" else [1]}[kind]
                       if orders is None else orders)
    hes = op == "hesthaven"
    cond = (op == "global") if conducting is None else conducting
    perm = (lambda k: rnd.sample(range(k), k)) if rnd.random() < 0.5 else None
    m, js, cell, bcs = setup(rnd, kind, n, skewed(rnd, dim, kind), interior=rnd.choice([0, 0.2]) if mode != "smooth" else 0.05,
                             materials=not hes and rnd.random() < 0.8, conducting=cond and mode != "smooth",
                             order=perm, turn=meshes.rotate(rnd) if rnd.random() < 0.5 else None)
    ne = len(m["cells"])
    S = 8192
    alpha2 = rnd.choice([0, 1, 2])
    if hes and alpha2 == 0 and "SMA" in bcs.values():
        alpha2 = 2        # refused by the code
    cs = centres(m)
    faces = [[] for _ in range(ne)]
    walled = [False] * ne
    for key, es, t in m["faces"]:
        A = area(m["nodes"], key, dim, kind)
        a = math.sqrt(sum(x * x for x in A))
        mid = [sum(m["nodes"][q][d] for q in key) / len(key) for d in range(3)]
        for e in es:
            sgn = 1 if sum(A[i] * (mid[i] - cs[e][i]) for i in range(3)) > 0 else -1
            N = [round(S * sgn * x) for x in A]
            P = [[round(S * (A[i] * A[j] / a - (a if i == j else 0))) for j in range(3)] for i in range(3)]
            faces[e].append({"N": N, "P": P, "wall": bcs[t] if t else "",
                             "nb": ((es[0] if es[1] == e else es[1]) + 1) if len(es) == 2 else 0})
            walled[e] = walled[e] or t is not None
    eps, mu, sig = ([c[i] for c in cell] for i in range(3))
    run = {"mode": mode, "case": js, "nodes": m["nodes"], "els": m["els"], "centres": cs, "S": S, "eps": eps, "mu": mu,
           "t": rnd.choice([0.0, 0.7]),
           "opts": {"op": op, "order": order, "alpha": alpha2 / 2, "basis": 1 if mode != "energy" else rnd.choice([1, 1, 0]) if not hes else 1}}
    sc = {"mode": mode, "kind": kind, "op": op, "order": order}
    if mode == "balance":
        u = [[rnd.randint(-4, 4) for _ in range(6)] for _ in range(ne)]
        run["u"] = u
        sc["q"] = {"S": S, "u": u, "faces": faces, "alpha2": alpha2, "sig": sig, "vden": 1024,
                   "vol": [round(1024 * volume(m["nodes"], c, kind)) for c, _ in m["cells"]], "slack": 400}
    elif mode == "smooth":
        inside = [e + 1 for e in range(ne) if not walled[e]]
        if not inside:
            return general_problem(rnd, op, mode, kinds, orders, conducting, big)
        co = lambda k: [rnd.randint(-3, 3) if i == 0 or i <= dim else 0 for i in range(k)]
        a = [co(4) for _ in range(6)]
        ok2 = order >= 2
        b = []
        for _ in range(6):
            q = [rnd.randint(-2, 2) if ok2 else 0 for _ in range(6)]
            if dim < 3:
                q[2] = q[4] = q[5] = 0
            if dim < 2:
                q[1] = q[3] = 0
            b.append(q)
        run.update(a=a, b=b, inside=inside)
        sc["q"] = {"S": S, "a": a, "b": b, "slack": 60}
    elif mode == "energy":
        sc["q"] = {"alpha2": alpha2, "walls": sorted(set(bcs.values())), "sig": sig, "slack": 2}
    return sc, run
