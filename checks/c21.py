"""C21: without sources the energy never grows (DgScheme.tla, Energy)."""
import random

import problems


def closed(s):
    q = s["q"]
    return q["alpha2"] == 0 and "SMA" not in q["walls"] and not any(q["sig"])


def make(rnd, op, big):
    want = rnd.random() < 0.3
    kinds = ("tri", "quad", "tet") if op == "hesthaven" else ("seg", "tri", "quad", "tet", "hex")
    while True:
        s, r = problems.general_problem(rnd, op, "energy", kinds=kinds, big=big)
        per = {"seg": s["order"] + 1, "tri": (s["order"] + 1) * (s["order"] + 2) // 2, "quad": (s["order"] + 1) ** 2,
               "tet": (s["order"] + 1) * (s["order"] + 2) * (s["order"] + 3) // 6, "hex": (s["order"] + 1) ** 3}[s["kind"]]
        if 6 * per * len(r["eps"]) <= (360 if not big else 700) and (closed(s) or not want):
            return s, r


def run(c):
    exe = c.build("scheme")
    if c.quick:
        c.model("DgSchemeMC", must_cover=("Fill",), workers=8)
    else:
        for cfg in ("DgSchemeMC", "DgSchemeMCMat", "DgSchemeMCRow", "DgSchemeMCDeep", "DgSchemeMCQuad"):
            c.model("DgSchemeMC", cfg, must_cover=("Fill",), workers=8)
    rnd = random.Random(c.seed)
    ops = ["global", "maxwell", "global", "maxwell", "hesthaven"]
    pairs = [make(rnd, ops[i % 5], not c.quick) for i in range(90 if c.quick else 600)]
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample({"problem": ss[0], "opts": pairs[0][1]["opts"], "events": tr[0]})
    c.extra["conserving"] = sum(map(closed, ss))
    bad = c.validate("DgSchemeTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=60, jobs=4,
                     describe=lambda s, ev, t, n: "the energy can grow or is lost without cause: %s %s" % (
                         {x: full[id(s)][x] for x in ("opts", "case")}, str(ev)[:300]))

    def grows(s, t):
        t[0]["top"] += 1000
        return t

    def loses(s, t):
        if not closed(s):
            return None
        t[0]["low"] -= 1000
        return t

    def rest(s, t):
        t[0]["rest"] += 5
        return t
    if not bad:
        c.binding("DgSchemeTrace", ss, tr, [grows, loses, rest])
