"""C30: problems seen from elsewhere (Viewpoint.tla)."""
import copy
import random

import c15
import c23
import layers
import problems

TOP = {1: 1, 2: 2, 3: 2, 4: 3, 5: 3, 15: 0}
ONE = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def planar(rnd):
    """A turn or mirror of the plane: quarter turns, or by a corner of the triangle 3, 4, 5."""
    if rnd.random() < 0.5:
        c, s, den = rnd.choice([(1, 0), (0, 1), (-1, 0), (0, -1)]) + (1,)
    else:
        c, s = rnd.choice([(3, 4), (4, 3), (-3, 4), (4, -3), (-4, -3)])
        den = 5
    f = rnd.choice([1, -1])
    return [[c, -s * f], [s, c * f]], den


def turned(rnd, dim, flip=True):
    """flip: whether the first axis of a one-dimensional problem may be reversed."""
    if dim == 1:
        q, den = planar(rnd)
        f = rnd.choice([1, -1]) if flip else 1
        return [[f * den, 0, 0], [0] + q[0], [0] + q[1]], den
    if dim == 2:
        q, den = planar(rnd)
        return [q[0] + [0], q[1] + [0], [0, 0, den * rnd.choice([1, -1])]], den
    q, den = planar(rnd)
    a = rnd.sample(range(3), 3)
    m = [[0] * 3 for _ in range(3)]
    m[a[0]][a[0]] = den * rnd.choice([1, -1])
    for i in range(2):
        for j in range(2):
            m[a[1 + i]][a[1 + j]] = q[i][j]
    b = rnd.sample(range(3), 3)
    return [m[b[i]] for i in range(3)], den


def mirrored(e):
    """The nodes of an element of the other handedness."""
    t, v = e[0], e[3:]
    v = {1: lambda: v[::-1], 2: lambda: [v[0], v[2], v[1]], 3: lambda: [v[0], v[3], v[2], v[1]], 4: lambda: [v[0], v[1], v[3], v[2]],
         5: lambda: [v[0], v[3], v[2], v[1], v[4], v[7], v[6], v[5]]}[t]()
    return e[:3] + v


def spun(rnd, e):
    """The same element, counted from another corner."""
    v = e[3:]
    if e[0] in (2, 3):
        k = rnd.randrange(len(v))
        v = v[k:] + v[:k]
    elif e[0] == 4:
        k = rnd.randrange(3)
        v = [v[0]] + v[1:][k:] + v[1:][:k]
    elif e[0] == 5:
        k = rnd.randrange(4)
        v = v[:4][k:] + v[:4][:k] + v[4:][k:] + v[4:][:k]
    return e[:3] + v


def reverse(b):
    """A layer stack described from its other side."""
    b["layers"] = b["layers"][::-1]
    if "sgbc_boundaries" in b:
        o = {"left": "right", "right": "left"}
        b["sgbc_boundaries"] = {o[s]: x for s, x in b["sgbc_boundaries"].items()}


def reordered(rnd, cells, before):
    """Any order of the cells in which those that tell the sides of a face stay before the other ones."""
    left, r = list(range(len(cells))), []
    while left:
        free = [i for i in left if not any(a in left for a, b in before if b == i)]
        if not free:
            return None
        r.append(rnd.choice(free))
        left.remove(r[-1])
    return [cells[i] for i in r]


def seen(rnd, base, flip):
    els = copy.deepcopy(base["els"])
    dim = max(TOP[e[0]] for e in els)
    m, den = turned(rnd, dim, flip)
    t = [rnd.choice([0.0, 1.0, -2.5]) if d < dim else 0.0 for d in range(3)]
    nodes = [[sum(m[i][j] * p[j] for j in range(3)) / den + t[i] for i in range(3)] for p in base["nodes"]]
    other = m[0][0] < 0 if dim == 1 else (m[0][0] * m[1][1] - m[0][1] * m[1][0] < 0 if dim == 2 else det(m) < 0)
    case = copy.deepcopy(base["case"])
    bs = case["model"]["boundaries"]
    stacks = []
    for b in list(bs):      # one description for each tag
        if b["type"] == "SGBC":
            bs.remove(b)
            stacks += [dict(copy.deepcopy(b), tags=[tag]) for tag in b["tags"]]
    bs += stacks
    cells = [e for e in els if TOP[e[0]] == dim]
    faces = [e for e in els if TOP[e[0]] != dim]
    if dim == 1:
        if other:      # counted along the axis again
            cells = [mirrored(e) for e in cells[::-1]]
            for b in stacks:
                reverse(b)
    else:
        # the first of two cells is on the left of the layers, or outside
        over = {b["tags"][0]: rnd.random() < 0.5 for b in stacks}
        sides = [[i for i, c in enumerate(cells) if set(f[3:]) <= set(c[3:])] for f in faces]
        before = lambda over: [tuple(s[::-1] if over.get(f[1]) else s) for f, s in zip(faces, sides)
                               if len(s) == 2 and (f[1] == 2 or f[1] in over)]
        o = reordered(rnd, cells, before(over))
        if o is None:
            over = dict.fromkeys(over, False)
            o = reordered(rnd, cells, before(over))
        for b in stacks:
            if over[b["tags"][0]]:
                reverse(b)
        cells = [spun(rnd, mirrored(e) if other else e) for e in o]
        faces = [mirrored(e) if other else e for e in rnd.sample(faces, len(faces))]
        # the nodes too
        o = rnd.sample(range(len(nodes)), len(nodes))
        new = {old + 1: i + 1 for i, old in enumerate(o)}
        nodes = [nodes[i] for i in o]
        cells, faces = ([e[:3] + [new[q] for q in e[3:]] for e in es] for es in (cells, faces))
    rnd.shuffle(bs)
    for s in case["sources"]:
        if s["type"] == "planewave":
            for k in ("propagation", "polarization"):
                s[k] = [sum(m[i][j] * s[k][j] for j in range(3)) / den for i in range(3)]
            if "mean" in s["magnitude"]:
                p = s["magnitude"]["mean"]
                s["magnitude"]["mean"] = [sum(m[i][j] * p[j] for j in range(3)) / den + t[i] for i in range(3)]
    return {"m": m, "den": den, "shift": t, "case": case, "nodes": nodes, "els": faces + cells}


def finish(rnd, r, flip=True, views=2):
    for k in ("runs", "S"):
        r.pop(k, None)
    dim = max(TOP[e[0]] for e in r["els"])
    for c in r["centres"]:
        for d in range(dim, 3):
            assert c[d] == 0
    base = {k: r[k] for k in ("case", "nodes", "els")}
    vs = [dict(base, m=ONE, den=1, shift=[0.0] * 3)] + [seen(rnd, base, flip) for _ in range(views)]
    return {"slack": 4}, {"S": 4096, "seed": r["seed"], "centres": r["centres"], "times": r["times"], "steps": r["steps"], "views": vs}


def walls(rnd, op):
    kinds = ("tri", "quad", "tet") if op == "hesthaven" else ("seg", "tri", "quad", "tet", "hex")
    _, r = problems.general_problem(rnd, op, "agree", kinds=kinds, conducting=op == "global")
    r["opts"].update(op=op, dt=1 / 256)
    _, run = c23.finish(rnd, r, r["centres"], 2)
    return finish(rnd, run)


def injected(rnd, op):
    while True:
        q, r = c15.make(rnd, False)
        if (q["op"] == "hesthaven") == (op == "hesthaven") and len(r["centres"]) <= 40:
            break
    spread = rnd.choice([0.5, 1.0, 2.0])
    prop, pol = rnd.choice([([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]), ([-1.0, 0.0, 0.0], [0.0, 0.0, 1.0]),
                            ([0.6, 0.8, 0.0], [-0.8, 0.6, 0.0]), ([0.0, 0.0, 2.0], [1.0, 0.0, 0.0])])
    mag, late = {"type": "gaussian", "spread": spread}, 7.5 * spread
    if rnd.random() < 0.7:
        mag["mean"], late = [rnd.choice([-1.0, -0.5, 0.25]), rnd.choice([0.0, 0.5]), 0.0], 1.0
    src = [{"type": "planewave", "tags": [2], "propagation": prop, "polarization": pol, "magnitude": mag}]
    _, run = c23.finish(rnd, dict(r, opts=dict(r["opts"], op=op, dt=1 / 256), times=[0.0, late]), r["centres"], 2, sources=src)
    # in one dimension the source has a direction of its own
    return finish(rnd, run, flip=False)


def layered(rnd):
    _, run = c23.layered(rnd)
    run["times"] = [0.0, 1 / 512]
    return finish(rnd, run, views=3)


def run(c):
    exe = c.build("view")
    c.model("ViewpointMC", "ViewpointMC" if c.quick else "ViewpointMCDeep", must_cover=("Move",), workers=4)
    rnd = random.Random(c.seed)
    k = 1 if c.quick else 6
    pairs = [walls(rnd, ["global", "maxwell", "hesthaven"][i % 3]) for i in range(36 * k)]
    pairs += [injected(rnd, ["global", "maxwell", "global", "hesthaven"][i % 4]) for i in range(24 * k)]
    pairs += [layered(rnd) for i in range(36 * k)]
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.extra["views"] = sum(len(t) for t in tr)
    c.sample({"options": pairs[0][1]["views"][0]["case"]["solver_options"], "view": pairs[0][1]["views"][1]["m"]})
    bad = c.validate("ViewpointTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=20, jobs=8,
                     describe=lambda s, ev, t, n: describe(full[id(s)], t, ev, n))

    def rate(s, t):
        t[-1]["what"][0]["v"][-1][0][1] += 40
        return t

    def late(s, t):
        t[-1]["what"][-1]["v"][0][-1][3] -= 40
        return t

    def elsewhere(s, t):
        t[-1]["m"] = [[-x for x in r] for r in t[-1]["m"]]
        return t
    if not bad:
        c.binding("ViewpointTrace", ss, tr, [rate, late, elsewhere])


def describe(r, t, ev, n):
    v = r["views"][min(n, len(r["views"])) - 1]
    head = "%s %s seen by %s / %s" % (v["case"]["solver_options"], v["case"]["model"], v["m"], v["den"])
    if "what" not in ev:
        return "%s: %s" % (head, str(ev)[:300])
    a, worst = t[0]["what"], []
    hand = -1 if det(ev["m"]) < 0 else 1
    for x, y in zip(a, ev["what"]):
        d = 0
        for p, q in zip(x["v"], y["v"]):
            for u, w in zip(p, q):
                for i in range(3):
                    d = max(d, abs(sum(ev["m"][i][j] * u[j] for j in range(3)) / ev["den"] - w[i]),
                            abs(hand * sum(ev["m"][i][j] * u[3 + j] for j in range(3)) / ev["den"] - w[3 + i]))
        worst.append((x["name"], round(d, 1)))
    return "%s: largest differences %s" % (head, worst)
