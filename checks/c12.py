"""C12: thin layers, threads and neighbours (LayerThreadsMC.tla, LayerStates.tla)."""
import random

import layers


def run(c):
    exe = c.build("layers")
    c.model("LayerThreadsMC", "LayerThreadsMC" if c.quick else "LayerThreadsMCDeep", must_cover=("Take", "Load", "Go", "Save"), workers=4)
    rnd = random.Random(c.seed)
    kinds = ["seg", "quad", "seg", "tri", "quad", "hex", "seg", "tet"]
    ss, full = [], {}
    for i in range(32 if c.quick else 240):
        kind = kinds[i % len(kinds)]
        judge = "faces" if i % 16 < 8 else "threads"
        prob, per, inside, dt, opts = layers.make(rnd, kind, rnd.choice([2, 3, 4]), apart=judge == "threads" or rnd.random() < 0.3,
                                                  ends=rnd.random() < 0.5)
        n = rnd.choice([2, 3]) if kind in ("seg", "quad", "tri") else 2
        dts = [rnd.choice([dt, dt, dt // 2]) for _ in range(n)]
        plan = [[{"at": rnd.choice([0, dts[k] // 2, dts[k]]), "seed": rnd.randrange(1000)} for _ in range(2)] for k in range(n)]
        steps = [{"dt": dts[k], "before": [], "start": plan[k], "end": []} for k in range(n)]
        vs = []
        if judge == "faces":
            for k, s in enumerate(steps):
                s["impose"] = 500 + 10 * i + k
            tags = sorted(per)
            sets = [[]] + [[t] for t in tags] + ([tags] if len(tags) > 1 else [])
            for q in sets:
                vs.append({"layered": q, "nodes": sum(per[t] for t in q), "steps": steps, "threads": rnd.choice([1, 2])})
        else:
            for q in (1, 2, rnd.choice([3, 4]), 8, 2, 3):
                vs.append({"layered": sorted(per), "nodes": sum(per.values()), "steps": steps, "threads": q,
                           "jitter": rnd.randrange(1, 10 ** 6) if q > 1 else 0})
        g = {"judge": judge, "kind": kind, "faces": len(per)}
        full[id(g)] = dict(g, problem=prob, opts=opts, inner=inside, start=rnd.randrange(1000), variants=vs)
        ss.append(g)
    tr = c.drive(exe, [full[id(g)] for g in ss], per=60)
    c.extra["layer steps"] = sum(e["e"] == "sub" for t in tr for e in t)
    c.sample({"scenario": ss[0], "events": [e for e in tr[0] if e["e"] == "sub"][:4]})
    bad = c.validate("LayerTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]], per=60)[0], batch=30, jobs=8,
                     describe=lambda s, ev, t, n: "%s: %s" % (s, str(ev)[:500]))

    def other_bit(s, t):
        a = [e for e in t if e["e"] == "accepted"]
        if s["judge"] != "threads" or len(a) < 2:
            return None
        a[-1]["hash"] ^= 1
        return t

    def cross_talk(s, t):
        a = [e for e in t if e["e"] == "rate"]
        if s["judge"] != "faces" or s["faces"] < 2 or not a:
            return None
        a[-1]["out"][0] += 20
        return t

    def borrowed_state(s, t):
        for i, e in enumerate(t):
            if e["e"] == "sub" and e["phase"] == "accept" and e["in"]:
                o = [x for x in t[:i] if x["e"] == "sub" and x["phase"] == "accept" and x["from"] == e["from"] and x["in"] != e["in"]]
                if o:
                    e["in"] = o[0]["in"]
                    return t
        return None
    if not bad:
        c.binding("LayerTrace", ss, tr, [other_bit, cross_talk, borrowed_state])
