"""C06: materials (Material.tla)."""
import random

COND = [(0, "0.0"), (0, "-0.0"), (1, "4.9e-324"), (1, "1e-300"), (1, "1e-15"), (1, "2e-9"), (1, "0.5"), (1, "1.0"), (1, "2.25e10"),
        (-1, "-4.9e-324"), (-1, "-1e-300"), (-1, "-1e-15"), (-1, "-1e-9"), (-1, "-1.0"), (-1, "-3e8")]


def number(rnd, bad):
    if rnd.random() < bad:
        return rnd.choice([{"n": 1, "d": 1, "p": 0, "ulp": -1}, {"n": 0, "d": 1, "p": 0, "ulp": 0}, {"n": -3, "d": 2, "p": 0, "ulp": 0},
                           {"n": 1, "d": 1000, "p": 0, "ulp": 0}, {"n": 9999, "d": 10000, "p": 0, "ulp": 0},
                           {"n": rnd.randint(-40, 30), "d": 31, "p": 0, "ulp": 0}])
    k = rnd.random()
    if k < 0.3:
        return {"n": 1, "d": 1, "p": 0, "ulp": rnd.choice([0, 0, 1])}
    if k < 0.5:
        return {"n": rnd.randint(1, 9), "d": 1, "p": rnd.choice([1, 7, 30, 60, 150]), "ulp": 0}
    d = rnd.choice([1, 2, 3, 7, 10, 16])
    return {"n": rnd.randint(d, 20 * d), "d": d, "p": 0, "ulp": rnd.choice([0, 0, 1, -1]) if d == 1 else 0}


def fix(x):
    # "one unit below" is only meaningful at exactly one; elsewhere keep it plain
    if x["ulp"] < 0 and x["n"] > x["d"]:
        x["ulp"] = 0
    return x


def scenario(rnd):
    ops = []
    bad = rnd.choice([0, 0.1, 0.4])
    for _ in range(rnd.randint(4, 14)):
        k = rnd.random()
        if not ops or k < 0.4:
            s, v = rnd.choice(COND[:2] if rnd.random() < 0.5 else COND if rnd.random() < bad else COND[:9])
            ops.append({"op": "make", "k": rnd.randint(1, 3),
                        "in": {"e": fix(number(rnd, bad)), "m": fix(number(rnd, bad)), "g": {"s": s, "v": v}}})
        elif k < 0.5:
            ops.append({"op": "copy", "a": rnd.randint(1, 3), "b": rnd.randint(1, 3)})
        else:
            ops.append({"op": rnd.choice(["holds", "impedance", "admittance", "speed", "pair"]), "k": rnd.randint(1, 3)})
    return {"ops": ops}


def grid():
    """Every combination of values around the limits, each asked for everything."""
    near = [{"n": n, "d": d, "p": p, "ulp": u} for n, d, p, u in
            ((1, 1, 0, -1), (1, 1, 0, 0), (1, 1, 0, 1), (1, 2, 0, 0), (0, 1, 0, 0), (-1, 1, 0, 0), (5, 2, 0, 0), (3, 1, 100, 0))]
    r = []
    for e in near:
        for m in near:
            ops = []
            for s, v in COND:
                ops.append({"op": "make", "k": 1, "in": {"e": e, "m": m, "g": {"s": s, "v": v}}})
                ops += [{"op": o, "k": 1} for o in ("holds", "impedance", "admittance", "speed", "pair")]
            r.append({"ops": ops})
    return r


def run(c):
    exe = c.build("material")
    c.model("MaterialMC", "MaterialMC" if c.quick else "MaterialMCDeep", must_cover=("Make", "Refuse", "Copy"), workers=4, timeout=800)
    rnd = random.Random(c.seed)
    ss = grid() + [scenario(rnd) for _ in range(1500 if c.quick else 40000)]
    tr = c.drive(exe, ss)
    slim = [{"id": i} for i in range(len(ss))]
    c.sample(ss[70], tr[70])
    bad = c.validate("MaterialTrace", slim, tr, rerun=lambda s: c.drive(exe, [ss[s["id"]]])[0],
                     describe=lambda s, ev, t, pos: "Material does not allow %s after %s" % (ev, t[max(0, pos - 4):pos - 1]))

    def first(kind):
        def f(s, t, kind=kind):
            for k, e in enumerate(t):
                if e["e"] == kind:
                    return k
            return None
        return f

    def wrong_answer(s, t):
        k = first("asked")(s, t)
        if k is None:
            return None
        t[k]["num"] += 1
        return t

    def wrongly_refused(s, t):
        k = first("made")(s, t)
        if k is None:
            return None
        t[k]["e"] = "refused"
        return t[:k + 1]

    def wrongly_made(s, t):
        k = first("refused")(s, t)
        if k is None:
            return None
        t[k]["e"] = "made"
        return t[:k + 1]

    def wrongly_declined(s, t):
        k = first("asked")(s, t)
        if k is None:
            return None
        t[k]["e"] = "declined"
        return t
    if not bad:
        c.binding("MaterialTrace", slim, tr, [wrong_answer, wrongly_refused, wrongly_made, wrongly_declined])
