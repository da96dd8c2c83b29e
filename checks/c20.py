"""C20: the formulations agree (DgScheme.tla, Rated)."""
import random

import c16
import problems

KINDS = ("tri", "quad", "tet")      # what the element-wise formulation supports


def make(rnd, ops, kinds, big):
    s, r = problems.general_problem(rnd, ops[-1], "agree", kinds=kinds, conducting=False, big=big)
    r["times"] = [0.0, 0.75]
    return finish(rnd, r, ops)


def injected(rnd, big):
    """Problems with total-field sources; the cells of c16."""
    r = c16.make(rnd, big, sides=True)
    top = max(e[0] for e in r["els"])      # line, triangle, quadrilateral, tetrahedron, hexahedron
    r["sources"] = [s for s, k in zip(r["sources"], r["kinds"]) if k == "total"]
    return finish(rnd, dict(r, mode="agree", t=0.0), ["global", "maxwell"] + (["hesthaven"] if top in (2, 3, 4) else []))


def finish(rnd, r, ops):
    r["ops"] = ops
    r["seed"] = rnd.randint(1, 10**6)
    r["S"] = 4096
    return {"mode": "agree", "slack": 3, "ops": ops}, r


def run(c):
    exe = c.build("scheme")
    c.model("DgSchemeMC", must_cover=("Fill",), workers=8)
    rnd = random.Random(c.seed)
    k = 1 if c.quick else 8
    pairs = []
    for i in range(40 * k):
        pairs.append(make(rnd, ["global", "maxwell"], ("seg", "tri", "quad", "tet", "hex"), not c.quick))
    for i in range(40 * k):
        pairs.append(make(rnd, ["global", "maxwell", "hesthaven"], KINDS, not c.quick))
    for i in range(40 * k):
        pairs.append(injected(rnd, not c.quick))
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample({"opts": pairs[0][1]["opts"], "events": [{k: v if k != "r" else v[:6] for k, v in e.items()} for e in tr[0]]})
    bad = c.validate("DgSchemeTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=30, jobs=8,
                     describe=lambda s, ev, t, n: "formulations disagree: %s at event %d %s" % (
                         {x: full[id(s)].get(x) for x in ("ops", "opts", "case", "sources")}, n, str(ev)[:200]))

    def one(s, t):
        t[-1]["r"][-1] += 8
        return t

    def swapped(s, t):
        a = t[-1]["r"]
        for i in range(len(a) - 1):
            if abs(a[i] - a[i + 1]) > 8:
                a[i], a[i + 1] = a[i + 1], a[i]
                return t
        return None
    if not bad:
        c.binding("DgSchemeTrace", ss, tr, [one, swapped])
