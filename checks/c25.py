"""C25: fits of surface impedances (Fit.tla)."""
import random


def make(rnd):
    f0 = 10.0 ** rnd.uniform(5, 9)
    limit = rnd.choice([1, 3, 5, 6, 8])
    p = {"eps": rnd.choice([1.0, 1.0, 3.0, 10.0]), "mu": rnd.choice([1.0, 1.0, 2.0]), "sigma": 10.0 ** rnd.uniform(-1, 5),
         "width": 10.0 ** rnd.uniform(-5, -2), "from": f0, "to": f0 * 10.0 ** rnd.uniform(0.3, 4), "points": rnd.choice([20, 60, 120]),
         "limit": limit}
    p["asks"] = [[rnd.randint(1, limit), 10.0 ** rnd.uniform(-8, 0)] for _ in range(8)]
    p["asks"] += [[limit, t] for t in (0.5, 0.05, 0.01)]
    return {"limit": limit}, p


def thick(rnd):
    """Sheets some numbers of poles of which give unstable fits."""
    _, p = make(rnd)
    f0 = 10.0 ** rnd.uniform(5.5, 6.5)
    p.update({"mu": 1.0, "sigma": 10.0 ** rnd.uniform(4.5, 5.5), "width": 10.0 ** rnd.uniform(-2.6, -2), "from": f0, "points": 60,
              "to": f0 * 10.0 ** rnd.uniform(0.4, 2), "limit": 8})
    p["asks"] = [[rnd.randint(1, 8), 10.0 ** rnd.uniform(-4, 0)] for _ in range(8)] + [[8, t] for t in (0.5, 0.05, 0.01)]
    return {"limit": 8}, p


def run(c):
    exe = c.build("fit")
    c.model("FitMC", "FitMC" if c.quick else "FitMCDeep", must_cover=("Try", "Exhaust"), workers=4)
    rnd = random.Random(c.seed)
    n = 1 if c.quick else 15
    pairs = [make(rnd) for _ in range(100 * n)] + [thick(rnd) for _ in range(40 * n)]
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample(pairs[0][1], tr[0])
    bad = c.validate("FitTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0],
                     describe=lambda s, ev, t, n: "%s: fit %d is %s after %s" % (full[id(s)], n, ev, t[:n - 1]))
    asked = lambda t, want: next((x for x in t if x["e"] == "asked" and want(x)), None)

    def more(s, t):
        x = asked(t, lambda x: 0 < x["n"] < x["limit"])
        if not x:
            return None
        x["n"] += 1
        x["poles"] = x["residues"] = x["n"]
        return t

    def unstable(s, t):
        x = asked(t, lambda x: x["n"] > 0)
        if not x:
            return None
        x["growing"] = 1
        return t

    def error(s, t):
        x = asked(t, lambda x: x["n"] > 0)
        if not x:
            return None
        x["off"] = 1
        return t

    def given_up(s, t):
        # as if the search had ended at the first unstable fit, from then on
        first = next((x for x in t if x["e"] == "limited" and x["n"] < x["limit"]), None)
        if not first or not any(x["e"] == "known" and x["n"] > first["limit"] for x in t):
            return None
        for x in t:
            if x["e"] in ("limited", "asked") and x["limit"] > first["limit"]:
                for k in ("n", "err", "stable", "poles", "residues", "growing", "off"):
                    x[k] = first[k]
        return t

    def worse(s, t):
        for a, b in zip(t, t[1:]):
            if b["e"] == "limited" and b["n"] == b["limit"] and a["n"]:
                b["err"] = a["err"] + 1
                return t
        return None
    if not bad:
        c.binding("FitTrace", ss, tr, [more, unstable, error, worse, given_up])
