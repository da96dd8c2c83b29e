"""Problems with thin layers (LayerStates.tla)."""
import meshes
from problems import VACUUM, Z0, case

TICK = 1 << 24
NODES = {"seg": lambda p: 1, "tri": lambda p: p + 1, "quad": lambda p: p + 1, "hex": lambda p: (p + 1) ** 2,
         "tet": lambda p: (p + 1) * (p + 2) // 2}


def stack(rnd, tag, dt, ends=True):
    ls = []
    for _ in range(rnd.choice([1, 1, 2])):
        k = rnd.choice([1, 2, 3])
        ls.append({"relative_permittivity": float(rnd.choice([1, 2, 4])), "relative_permeability": float(rnd.choice([1, 1, 2])),
                   "bulk_conductivity": rnd.choice([0.0, 0.5, 5.0, 40.0]) / Z0, "num_of_segments": k, "order": rnd.choice([1, 1, 2]),
                   "material_width": k * dt * rnd.choice([0.6, 1.1, 2.5, 5.0])})
    b = {"tags": [tag], "type": "SGBC", "layers": ls}
    if ends and rnd.random() < 0.3:
        b["sgbc_boundaries"] = {s: rnd.choice(["PEC", "PMC", "SMA"]) for s in rnd.sample(["left", "right"], rnd.choice([1, 2]))}
    size = sum(x["num_of_segments"] for x in ls) * (max(x["order"] for x in ls) + 1)
    return b, size


def make(rnd, kind, faces, apart=True, order=None, ends=True):
    """A mesh with some layered faces; returns the problem, the numbers of nodes by tag, and the size of the
    smallest layer."""
    n = {"seg": [6], "quad": [4, 2], "tri": [3, 2], "hex": [3, 1, 1], "tet": [2, 1, 1]}[kind]
    dim = len(n)
    order = order or (rnd.choice([1, 2]) if dim < 3 else 1)
    perm = (lambda k: rnd.sample(range(k), k)) if dim > 1 and rnd.random() < 0.5 else None
    state = rnd.getstate()
    jig = {}

    def place(p):
        if kind in ("tri", "tet") and dim > 1:
            s = jig.setdefault(tuple(p), [rnd.uniform(-0.2, 0.2) if d < dim else 0.0 for d in range(3)])
            return [a + b for a, b in zip(p, s)]
        return [float(x) for x in p]
    first = meshes.box(kind, n, order=perm)
    rnd.setstate(state)
    inner = [(key, es) for key, es, t in first["faces"] if len(es) == 2]
    rnd.shuffle(inner)
    pick, busy = [], set()
    for key, es in inner:
        if len(pick) < faces and not (apart and busy & set(es)):
            pick.append(key)
            busy |= set(es)
    mid = lambda key: tuple(sum(first["pts"][q][d] for q in key) / len(key) for d in range(3))
    # one tag each, or one tag for several
    tags = {mid(k): 31 + (i if rnd.random() < 0.8 else 0) for i, k in enumerate(pick)}
    rnd.setstate(state)
    m = meshes.box(kind, n, outer=lambda p: 11, inner=lambda a, b, p: tags.get(tuple(p)), place=place, order=perm)
    dt = TICK >> rnd.choice([6, 7])
    bs, inside, per = [], None, {}
    for t in sorted(set(tags.values())):
        b, size = stack(rnd, t, dt / TICK, ends)
        bs.append(b)
        inside = size if inside is None else min(inside, size)
        per[t] = sum(x == t for x in tags.values()) * NODES[kind](order)
    rnd.shuffle(bs)
    els = []
    for e in m["els"]:
        if e[1] >= 31 and kind != "seg" and rnd.random() < 0.4:
            e = e[:3] + e[3:][::-1]
        els.append(e)
    cs = case(VACUUM, bs + [{"tags": [11], "type": rnd.choice(["PEC", "PMC", "SMA"])}])
    prob = {"case": cs, "nodes": m["nodes"], "els": els}
    return prob, per, inside, dt, {"op": "global", "order": order, "alpha": rnd.choice([1.0, 1.0, 0.5]), "dt": dt / TICK, "ode": 0}


def step(rnd, dt, evals, pool, where=("before", "start", "end")):
    s = {"dt": dt, "before": [], "start": [], "end": []}
    for _ in range(evals):
        s[rnd.choice(where)].append(dict(rnd.choice(pool)))
    return s
