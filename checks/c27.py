"""C27: the automatic time step (StepSize.tla)."""
import math
import random

import c23
import meshes
from problems import VACUUM, case

UNIT = 500000


def part(rnd, kind, rows):
    """Columns of cells with their widths; nodes inside may be moved."""
    n = rnd.choice([1, 2, 3]) if kind in ("seg", "tri", "quad") else rnd.choice([1, 2])
    xs = [0.0]
    for _ in range(n):
        xs.append(xs[-1] + rnd.choice([0.5, 1.0, 1.0, 2.0, 3.0]))
    moved = {}
    if kind != "hex":
        for i in range(1, n):
            for j in range(rows[1] + 1):
                for k in range(rows[2] + 1):
                    moved[i, j, k] = [rnd.uniform(-0.1, 0.1) if d < len([r for r in rows if r]) else 0.0 for d in range(3)]
    return {"xs": xs, "moved": moved}


def motion(rnd, dim):
    at = [rnd.uniform(-50, 50) if d < dim else 0.0 for d in range(3)]
    a, b = (rnd.uniform(0, 2 * math.pi) if d < dim else 0.0 for d in (1, 2))

    def move(p):
        x, y, z = p
        x, y = x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)
        y, z = y * math.cos(b) - z * math.sin(b), y * math.sin(b) + z * math.cos(b)
        return [x + at[0], y + at[1], z + at[2]]
    return move


def make(rnd):
    kind = rnd.choice(["seg", "tri", "tri", "quad", "tet", "hex"])
    dim = {"seg": 1, "tri": 2, "quad": 2}.get(kind, 3)
    op = rnd.choice(["global", "maxwell"] + (["hesthaven"] if kind in ("tri", "quad", "tet") else []))
    rows = [1] + [rnd.choice([1, 2]) if d < dim else 0 for d in (1, 2)]
    step = [1.0, rnd.choice([0.7, 1.0, 2.0]), rnd.choice([0.6, 1.0, 1.5])]
    parts = [part(rnd, kind, rows) for _ in range(rnd.choice([2, 3]))]
    orders = sorted(rnd.sample([1, 2, 3], 2) if dim < 3 else rnd.choice([[1], [1], [2], [1, 2]]))
    asks, full = [], []

    def ask(which, order, scale=(1, 1), cfl=100, given=0, still=False):
        cols = [(q, i) for q in which for i in range(len(parts[q]["xs"]) - 1)]
        f = scale[0] / scale[1]
        start = {}
        x = 0.0
        for q in which:
            start[q] = x
            x += parts[q]["xs"][-1]
        move = (lambda p: p) if still else motion(rnd, dim)

        def place(p):
            i, j, k = p
            q, c = cols[i] if i < len(cols) else (cols[-1][0], cols[-1][1] + 1)
            m = parts[q]["moved"].get((c, j, k), [0.0, 0.0, 0.0])
            at = [start[q] + parts[q]["xs"][c], j * step[1], k * step[2]]
            return move([f * (at[d] + m[d]) for d in range(3)])
        m = meshes.box(kind, [len(cols), rows[1], rows[2]][:dim], outer=lambda p: 1, place=place,
                       order=None if still else lambda n: rnd.sample(range(n), n), turn=None if still else meshes.rotate(rnd))
        cs = case(VACUUM, [{"tags": [1], "type": "PEC"}],
                  [{"type": "initial", "field_type": "electric", "polarization": [0.0, 1.0, 0.0], "dimension": dim,
                    "magnitude": {"type": "gaussian", "spread": 0.3}, "center": [0.5] * dim}])
        o = {"final_time": 1.0, "order": order, "evolution_operator": op, "cfl": cfl / 100}
        if given:
            o["time_step"] = given / UNIT
        cs["solver_options"] = o
        ne = len(m["cells"])
        many = op != "hesthaven" and not still and ne > 1 and rnd.random() < 0.5
        run = c23.split(rnd, ne) if many else {"ranks": 1, "part": [0] * ne}
        asks.append({"parts": [q + 1 for q in which], "order": order, "scale": list(scale), "cfl": cfl, "given": given,
                     "ranks": run["ranks"]})
        full.append(dict(run, case=cs, nodes=m["nodes"], els=m["els"]))
    every = list(range(len(parts)))
    for o in rnd.sample(orders, len(orders)):
        for q in every:
            ask([q], o, still=True)
    for _ in range(6):
        some = rnd.sample(every, rnd.randint(1, len(every)))
        ask(some, rnd.choice(orders), rnd.choice([(1, 1), (1, 2), (3, 2), (2, 1), (5, 4)]), rnd.choice([100, 80, 50, 30, 95]),
            rnd.choice([0, 0, 0, 0, 0, 0, 2500, 40000]))
    return {"asks": asks}, {"asks": full, "unit": UNIT}, (kind, op)


def run(c):
    exe = c.build("autostep")
    c.model("StepSizeMC", "StepSizeMC" if c.quick else "StepSizeMCDeep", must_cover=("Look", "Tell", "Choose"), workers=4)
    rnd = random.Random(c.seed)
    ts = [make(rnd) for _ in range(70 if c.quick else 900)]
    ss = [a for a, _, _ in ts]
    full = {id(a): b for a, b, _ in ts}
    name = {id(a): k for a, _, k in ts}
    tr = c.drive(exe, [b for _, b, _ in ts], jobs=8)
    c.sample(ss[0], tr[0])
    bad = c.validate("StepSizeTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=20,
                     describe=lambda s, ev, t, n: "%s: asked %s, chose %s" % (name[id(s)], s["asks"][n - 1], ev))

    def at(want):
        def f(s, t):
            for a, e in zip(s["asks"][::-1], t[::-1]):
                if want(a):
                    e["dts"][-1] += 2 + e["dts"][-1] // 50
                    return t
            return None
        f.__name__ = want.__name__
        return f

    def joined(a):
        return len(a["parts"]) > 1 and a["given"] == 0 and a["ranks"] == 1

    def declared(a):
        return a["given"] > 0 and a["ranks"] == 1

    def one_rank(a):
        return a["ranks"] > 1

    def scaled(a):
        return a["scale"][1] > 1 and a["given"] == 0 and a["ranks"] == 1
    if not bad:
        c.binding("StepSizeTrace", ss, tr, [at(joined), at(declared), at(one_rank), at(scaled)])
