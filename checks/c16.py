"""C16: several sources (Superposition.tla)."""
import random

import meshes
from problems import VACUUM, case


def coeffs(rnd):
    return [[[rnd.randint(-2, 2) for _ in range(5)] for _ in range(3)] for _ in range(2)]


UNIT = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.6, 0.8, 0.0], [0.0, -0.6, 0.8]]


def source(rnd, dim, initial):
    if initial:
        s = {"f": rnd.choice("EH"), "pol": rnd.choice(UNIT), "center": [rnd.randint(-2, 2) / 2 for _ in range(3)]}
        if rnd.random() < 0.6:
            return dict(s, kind="start", c=[rnd.randint(-3, 3) for _ in range(4)])
        return dict(s, kind="bump", spread=0.75, at=[0.5] * dim)
    k = rnd.choice(["affine", "affine", "wave", "dipole"] if dim == 3 else ["affine", "affine", "wave"])
    if k == "affine":
        return {"kind": k, "c": coeffs(rnd)}
    if k == "wave":
        prop, pol = rnd.choice([(UNIT[0], UNIT[1]), (UNIT[0], UNIT[2]), (UNIT[1], UNIT[2]), ([0.6, 0.8, 0.0], [0.0, 0.0, 1.0]),
                                ([-1.0, 0.0, 0.0], UNIT[1])])
        return {"kind": k, "spread": 1.0, "mean": rnd.choice([0.0, -1.0]), "prop": prop, "pol": pol, "f": rnd.choice("EH")}
    return {"kind": k, "length": 0.5, "spread": 1.0, "mean": 2.0}


def make(rnd, big, sides=False):
    op = rnd.choice(["global", "maxwell", "global", "maxwell", "hesthaven"])
    kind = rnd.choice(["tri", "tri", "tet"] if op == "hesthaven" else ["seg", "quad", "tri", "quad", "tet", "hex"])
    nsz = {"seg": [6], "quad": [3, 3], "tri": [3, 3], "tet": [1, 1, 1], "hex": [3, 3, 3]}[kind]
    order = {"seg": rnd.choice([1, 2, 3]), "quad": rnd.choice([1, 2]), "tri": rnd.choice([1, 2]), "tet": 1, "hex": 1}[kind]
    if kind == "hex":
        nsz = [2, 2, 2] if not big else nsz
    if kind == "seg":
        lo = rnd.randint(1, 3)
        pts = {lo} if rnd.random() < 0.3 else {lo, rnd.randint(lo + 1, 5)}
        inner = lambda a, b, p: 2 if p[0] in pts else None
    elif kind in ("quad", "tri"):
        x0, y0 = rnd.randint(0, 1), rnd.randint(0, 1)
        x1, y1 = rnd.randint(x0 + 1, 2), rnd.randint(y0 + 1, 2)
        inb = lambda b: x0 <= b[0] < x1 and y0 <= b[1] < y1
        inner = lambda a, b, p: 2 if inb(a) != inb(b) else None
    elif kind == "hex":
        inb = lambda b: tuple(b) == ((1, 1, 1) if big else (0, 0, 0))
        inner = lambda a, b, p: 2 if inb(a) != inb(b) else None
    else:
        nsz = [2, 1, 1]
        inner = lambda a, b, p: 2 if a != b else None
    far = 2 if kind in ("tet", "hex") else 0   # away from the point dipole at the origin
    # in two dimensions the elements numbered first take the scattered side
    order_ = None
    if kind in ("quad", "tri") and sides:
        per = 2 if kind == "tri" else 1
        late = [inb((i % nsz[0], i // nsz[0], 0)) for i in range(nsz[0] * nsz[1])]
        order_ = lambda k: sorted(range(k), key=lambda e: late[e // per])
    m = meshes.box(kind, nsz, inner=inner, place=lambda p: [p[0] + far, p[1], p[2]], order=order_)
    n = rnd.choice([2, 2, 3, 4])
    kinds = [rnd.choice(["initial", "total", "total"]) for _ in range(n)]
    if rnd.random() < 0.5:
        kinds[:2] = ["total", "total"]
    src = [source(rnd, m["dim"], k == "initial") for k in kinds]
    ids = list(range(1, n + 1))
    sets = [[]] + [[k] for k in ids] + [ids, rnd.sample(ids, n), [ids[0], ids[0]]]
    if n > 2:
        sets.append(rnd.sample(ids, 2))
    bc = rnd.choice(["PEC", "PMC", "SMA"])
    return {"case": case(VACUUM, [{"tags": [1], "type": bc}]), "nodes": m["nodes"], "els": m["els"], "tfsf": [2],
            "opts": {"op": op, "order": order, "alpha": rnd.choice([0.0, 1.0]) if bc != "SMA" else 1.0,
                     "basis": 1},
            "sources": src, "sets": sets, "kinds": kinds, "times": [0.0, 0.5, 1.25], "x": rnd.randint(1, 10**6)}


def run(c):
    exe = c.build("rates")
    c.model("SuperpositionMC", "SuperpositionMC" if c.quick else "SuperpositionMCDeep",
            must_cover=("AskNothing", "AskAlone", "Choose", "Take", "Judge"), workers=4)
    rnd = random.Random(c.seed)
    ss = [make(rnd, not c.quick) for _ in range(48 if c.quick else 400)]
    tr = c.drive(exe, ss)
    slim = [{"kinds": s["kinds"]} for s in ss]
    full = {id(a): b for a, b in zip(slim, ss)}
    bad = c.validate("SuperpositionTrace", slim, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=60,
                     describe=lambda s, ev, t, n: "the sources %s of %s do not act as the sum of what each does alone (event %d: %s)"
                     % (ev.get("who"), {k: full[id(s)][k] for k in ("opts", "sources", "kinds")}, n, ev.get("e")))
    c.sample({k: ss[0][k] for k in ("opts", "sources", "sets")}, {"rate": tr[0][-1].get("rates", [[]])[0][:12]})
    c.extra["nonzero_injections"] = sum(1 for s, t in zip(ss, tr) if any(
        ev.get("rates") != t[0].get("rates") for ev in t[1:1 + len(s["kinds"])]))

    def late(s, t):
        for ev in t[1:]:
            if len(ev["who"]) == 1 and s["kinds"][ev["who"][0] - 1] == "initial":
                ev["rates"][0][0] += 40
                return t
        return None

    def early(s, t):
        for ev in t[1:]:
            if len(ev["who"]) == 1 and s["kinds"][ev["who"][0] - 1] == "total":
                ev["init"][0] = 1
                return t
        return None

    def lost(s, t):
        for ev in t[1:]:
            if len(ev["who"]) > 1:
                ev["rates"][1][-1] += 40
                return t
        return None

    def start(s, t):
        for ev in t[1:]:
            if len(ev["who"]) > 1:
                ev["init"][-1] += 40
                return t
        return None
    if not bad:
        c.binding("SuperpositionTrace", slim, tr, [late, early, lost, start])
