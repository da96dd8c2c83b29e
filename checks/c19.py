"""C19: the rate of change is the specified scheme (DgScheme.tla)."""
import random

import problems


def run(c):
    exe = c.build("scheme")
    c.model("DgSchemeMC", must_cover=("Fill",), workers=8)
    if not c.quick:
        for cfg in ("DgSchemeMCMat", "DgSchemeMCRow", "DgSchemeMCQuad"):
            c.model("DgSchemeMC", cfg, workers=8, timeout=850)
    rnd = random.Random(c.seed)
    k = 1 if c.quick else 8
    pairs = []
    ops = ["global"] * 4 + ["maxwell"]
    for i in range(48 * k):
        pairs.append(problems.boxes_problem(rnd, ops[i % 5], [[1], [2], [3], [4], [2, 1], [2, 2], [3, 2], [2, 1, 1], [1, 2, 2]]))
    for i in range(72 * k):
        pairs.append(problems.general_problem(rnd, ops[i % 5], "balance"))
    for i in range(40 * k):
        pairs.append(problems.general_problem(rnd, ops[i % 5], "smooth"))
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample({"problem": ss[0]["g"], "rates": tr[0]})
    bad = c.validate("DgSchemeTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=30, jobs=8,
                     describe=lambda s, ev, t, n: "the rate of change is not that of the scheme (%s): %s %s" % (
                         s["mode"], {x: full[id(s)][x] for x in ("opts", "case")}, str(ev)[:300]))

    def one(s, t):
        if s["mode"] != "boxes":
            return None
        t[0]["r"][-1][-1][1] += 1
        return t

    def mean(s, t):
        if s["mode"] != "balance":
            return None
        t[0]["m"][0][4] += 300
        return t

    def curl(s, t):
        if s["mode"] != "smooth":
            return None
        t[0]["r"][-1][2] += 200
        return t
    if not bad:
        c.binding("DgSchemeTrace", ss, tr, [one, mean, curl])
