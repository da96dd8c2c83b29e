"""C11: stored states of thin layers (LayerStates.tla)."""
import random

import layers


def run(c):
    exe = c.build("layers")
    c.model("LayerStatesMC", "LayerStatesMC" if c.quick else "LayerStatesMCDeep", must_cover=("Ask", "Start", "Finish"), workers=4)
    rnd = random.Random(c.seed)
    kinds = ["seg", "quad", "seg", "tri", "hex", "seg", "quad", "tet"]
    ss, full = [], {}
    for i in range(24 if c.quick else 200):
        kind = kinds[i % len(kinds)]
        prob, per, inside, dt, opts = layers.make(rnd, kind, rnd.choice([1, 2, 3]))
        n = rnd.choice([2, 3, 4]) if kind in ("seg", "quad", "tri") else 2
        dts = [rnd.choice([dt, dt, dt // 2, dt * 3 // 4]) for _ in range(n)]
        still = rnd.random() < 0.15
        plan = []
        for k in range(n):
            plan.append([{"at": rnd.choice([0, dts[k] // 4, dts[k] // 2, dts[k], 2 * dts[k]]), "seed": rnd.randrange(1000)}
                         for _ in range(3)])
        vs = []
        for q in range(3):
            st = [layers.step(rnd, dts[k], 0 if q == 0 else rnd.choice([1, 2, 3]), plan[k]) for k in range(n)]
            vs.append({"layered": sorted(per), "nodes": sum(per.values()), "steps": st, "threads": rnd.choice([1, 1, 3]) if q else 1})
        if still:     # at rest, then moved
            for v in vs:
                for k, s in enumerate(v["steps"]):
                    s["impose"] = 77 + k
                    s["still"] = k == 0
        g = {"judge": "history", "kind": kind, "faces": len(per)}
        r = dict(g, problem=prob, opts=opts, inner=inside, start=rnd.randrange(1000), still=still, variants=vs)
        ss.append(g)
        full[id(g)] = r
    tr = c.drive(exe, [full[id(g)] for g in ss], per=60)
    c.extra["layer steps"] = sum(e["e"] == "sub" for t in tr for e in t)
    c.extra["questions"] = sum(e["e"] == "rate" for t in tr for e in t)
    c.sample({"scenario": ss[0], "events": [e for e in tr[0] if e["e"] == "sub"][:4]})
    bad = c.validate("LayerTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]], per=60)[0], batch=30, jobs=8,
                     describe=lambda s, ev, t, n: "%s: %s" % (s, str(ev)[:500]))

    def moved_by_question(s, t):
        k = [i for i, e in enumerate(t) if e["e"] == "sub" and e["phase"] == "trial"]
        a = [i for i, e in enumerate(t) if e["e"] == "sub" and e["phase"] == "accept" and e["in"] == 0 and e["from"] == 0]
        if not k or not a or k[0] > a[0]:
            return None
        t[a[0]]["in"] = t[k[0]]["out"]
        return t

    def twice(s, t):
        k = [i for i, e in enumerate(t) if e["e"] == "accepted"]
        a = [i for i, e in enumerate(t) if e["e"] == "sub" and e["phase"] == "accept"]
        if not a or s["faces"] > 1 or not any(e["e"] == "variant" and e["nodes"] == 1 for e in t):
            return None
        run = [e for e in t[:k[0]] if e["e"] == "sub" and e["phase"] == "accept"]
        return t[:k[0]] + run + t[k[0]:] if run else None

    def not_at_all(s, t):
        new = [e for e in t if not (e["e"] == "sub" and e["phase"] == "accept")]
        return new if len(new) < len(t) else None

    def too_far(s, t):
        a = [i for i, e in enumerate(t) if e["e"] == "accepted"]
        if not a or t[a[0] - 1]["e"] != "sub":
            return None
        t[a[0] - 1]["to"] += 1000
        return t

    def other_answer(s, t):
        seen = set()
        for e in t:
            if e["e"] == "rate":
                q = (e["step"], e["at"], e["seed"])
                if q in seen:
                    e["out"][0] += 100000
                    return t
                seen.add(q)
        return None
    if not bad:
        c.binding("LayerTrace", ss, tr, [moved_by_question, twice, not_at_all, too_far, other_answer])
