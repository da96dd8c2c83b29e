"""C22: implicit stage solves (Implicit.tla)."""
import random

import c16
import problems


def calls(rnd, n):
    """Steps come back after others, some hardly differ; the same question is asked again."""
    a, b = (1024 * x for x in rnd.sample([1, 2, 4, 5, 16, 40, 64], 2))
    a = max(a, 4096)
    dts = [a, a + rnd.choice([-1, 1]) * rnd.choice([a // 128, a // 1024, a // 4096]), b, 0]
    qs = [{"dt": rnd.choice(dts), "x": rnd.randint(1, 4), "t": rnd.randint(0, 3)} for _ in range(max(2, n // 2))]
    out = []
    for i in range(n):
        q = dict(rnd.choice(qs))
        if rnd.random() < 0.5:
            q["dt"] = rnd.choice(dts)
        out.append(dict(q, do="solve", start=rnd.choice(["none", "zero", "kept"])))
        if rnd.random() < 0.25:
            out.append({"do": "rate", "x": 0, "t": 0})
    return out


def boxes(rnd):
    s, r = problems.boxes_problem(rnd, "global", [[1], [2], [3], [4], [2, 1], [2, 2], [2, 1, 1]])
    g = s["g"]
    g["slack"] = 260 * (1 + max(g["sig"])) * g["order"]
    S = 1024
    g["S"] = 1
    run = {k: r[k] for k in ("case", "nodes", "els", "centres", "dim", "opts")}
    run.update(S=S, order=g["order"], calls=calls(rnd, 4))
    g["x"] = []
    return {"slack": 2, "g": g}, run


def general(rnd):
    r = c16.make(rnd, False)
    while r["opts"]["op"] != "global":
        r = c16.make(rnd, False)
    run = {k: r[k] for k in ("case", "nodes", "els", "tfsf", "opts", "sources")}
    run["calls"] = calls(rnd, 6)
    return {"slack": 2, "g": {}}, run


def large(rnd):
    """More unknowns than are factored at once."""
    s, r = problems.general_problem(rnd, "global", "agree", kinds=("quad", "tri", "hex", "tet"), orders=[3], big=True)
    run = {k: r[k] for k in ("case", "nodes", "els", "opts")}
    run["calls"] = calls(rnd, 4)
    return {"slack": 2, "g": {}}, run


def run(c):
    exe = c.build("implicit")
    c.model("ImplicitMC", must_cover=("Solve", "Evaluate"), workers=4)
    rnd = random.Random(c.seed)
    k = 1 if c.quick else 8
    pairs = [boxes(rnd) for _ in range(40 * k)] + [general(rnd) for _ in range(30 * k)] + [large(rnd) for _ in range(16 * k)]
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample({"opts": pairs[0][1]["opts"], "calls": pairs[0][1]["calls"], "first": tr[0][0] if tr[0] else None})
    c.extra["unknowns"] = sorted({e["size"] for t in tr for e in t if e.get("e") == "solve"})
    bad = c.validate("ImplicitTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=60, jobs=8,
                     describe=lambda s, ev, t, n: "%s calls %s: event %d %s" % (
                         full[id(s)]["opts"], full[id(s)]["calls"], n, str(ev)[:300]))
    solved = lambda t: [e for e in t if e["e"] == "solve"]

    def off(s, t):
        solved(t)[-1]["res"] = 50
        return t

    def other(s, t):
        seen = set()
        for e in solved(t):
            q = (e["dt"], e["x"], e["t"])
            if q in seen:
                e["k"][0] += 40
                return t
            seen.add(q)
        return None

    def stage(s, t):
        k = [e for e in t if e["e"] == "stage"]
        if not k:
            return None
        k[-1]["k"][0][0][1] += 3 * s["g"]["slack"]
        return t
    if not bad:
        c.binding("ImplicitTrace", ss, tr, [off, other, stage])
