"""C28: the field of a dipole (Dipole.tla)."""
import random

TOL = 3000


def make(rnd):
    spread = 2.0 ** rnd.randint(-3, 2)
    unit = spread * 2.0 ** rnd.randint(-3, 2)
    pts, whole = [], []
    while len(pts) < 6:
        at = [rnd.randint(-8, 8) for _ in range(3)]
        if rnd.random() < 0.2:
            at[rnd.randrange(3)] = 0
        # the frame of the field is not defined on the axis
        if at[0] == 0 and at[1] == 0:
            continue
        # off the axis by more than the lattice reaches
        if (at[0] ** 2 + at[1] ** 2) * 36 < sum(x * x for x in at):
            continue
        pts.append({"at": [x * unit for x in at], "late": rnd.choice([-2.5, -2.0, -1.25, -0.5, 0.0, 0.4, 0.75, 1.5, 2.5])})
        whole.append({"at": at})
    return {"tol": TOL, "points": whole}, {"length": rnd.choice([1.0, 0.25, 3.0]), "spread": spread,
                                           "delay": rnd.choice([0.0, 5.0, -1.5, 12.0]) * spread, "points": pts}


def run(c):
    exe = c.build("dipole")
    c.model("DipoleMC", "DipoleMC" if c.quick else "DipoleMCDeep", must_cover=("Join", "Spoil"), workers=8)
    rnd = random.Random(c.seed)
    ps = [make(rnd) for _ in range(150 if c.quick else 1500)]
    ss = [a for a, _ in ps]
    full = {id(a): b for a, b in ps}
    tr = c.drive(exe, [b for _, b in ps])
    c.sample(ps[0][1], tr[0][0])
    bad = c.validate("DipoleTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=40,
                     describe=lambda s, ev, t, n: "dipole %s at %s: %s" % (
                         {k: v for k, v in full[id(s)].items() if k != "points"}, full[id(s)]["points"][(n - 1) // 2], str(ev)[:400]))

    def flip(s, t):
        for line in t[0]["lines"]:
            for v in line:
                v[2] = -v[2]
        return t

    def fast(s, t):
        for v in t[0]["lines"][3]:
            v[3] += v[3] // 4
            v[4] += v[4] // 4
        return t

    def early(s, t):
        t[1]["before"] = 2000
        return t

    def other(name, i):
        def f(s, t):
            t[0][name][i] += 40 + abs(t[0][name][i]) // 100
            return t
        f.__name__ = name
        return f
    if not bad:
        c.binding("DipoleTrace", ss, tr, [flip, fast, early] + [other(n, i) for n in ("turned", "longer", "later") for i in (0, 4)])
