"""C17: plane waves (PlaneWave.tla)."""
import itertools
import random


def cols(q):
    a, b, c, d = q
    k = [a * a + b * b - c * c - d * d, 2 * (b * c + a * d), 2 * (b * d - a * c)]
    p = [2 * (b * c - a * d), a * a - b * b + c * c - d * d, 2 * (c * d + a * b)]
    return k, p, a * a + b * b + c * c + d * d


def scenario(rnd, q, via):
    k, p, n = cols(q)
    fk = rnd.choice([1.0, 1.0 / n, -1.0, 7.0, 1e-3, -2.5e4])
    fp = rnd.choice([1.0, 1.0 / n, -1.0, 5.0, 1e-4, -3e3])
    dim = rnd.choice([1, 2, 3]) if via == "direct" else 3
    s = {"q": list(q), "spec": rnd.choice(["E", "H"]) if via == "direct" else "E", "sk": 1 if fk > 0 else -1, "sp": 1 if fp > 0 else -1,
         "k": [x * fk for x in k], "p": [x * fp for x in p], "N": n, "dim": dim, "via": via,
         "samples": [{"r": [rnd.randint(-5, 5) for _ in range(3)], "j": rnd.randint(0, 40)} for _ in range(6)]}
    # pairs of samples that differ by a displacement along the wave and the matching delay
    if dim == 3:
        x = s["samples"][0]
        s["samples"].append({"r": [x["r"][d] + s["sk"] * k[d] for d in range(3)], "j": x["j"] + 4 * n})
    if via == "case":
        m = {"type": "gaussian", "spread": rnd.choice([2.0, 5.0, 9.0]), "mean": [rnd.uniform(-3, 3) for _ in range(3)]}
        if rnd.random() < 0.5:
            m["frequency"] = rnd.choice([2e7, 1e8])
        s["case"] = {"sources": [{"type": "planewave", "polarization": s["p"], "propagation": s["k"], "tags": [1], "magnitude": m}]}
    return s


def run(c):
    exe = c.build("planewave")
    c.model("PlaneWaveMC", "PlaneWaveMC" if c.quick else "PlaneWaveMCDeep", must_cover=("LaunchOne", "SampleOne"), workers=4, timeout=800)
    rnd = random.Random(c.seed)
    small = [q for q in itertools.product((-1, 0, 1), repeat=4) if any(q)]
    ss = [scenario(rnd, q, "direct") for q in small]
    for i in range(500 if c.quick else 8000):
        q = [0] * 4
        while not any(q):
            q = [rnd.randint(-3, 3) for _ in range(4)]
        ss.append(scenario(rnd, q, "case" if i % 3 == 0 else "direct"))
    tr = c.drive(exe, ss)
    slim = [{k: s[k] for k in ("q", "spec", "sk", "sp")} for s in ss]
    for i, s in enumerate(slim):
        s["id"] = i
    c.sample(ss[0], tr[0])
    bad = c.validate("PlaneWaveTrace", slim, tr, rerun=lambda s: c.drive(exe, [ss[s["id"]]])[0],
                     describe=lambda s, ev, t, pos: "PlaneWave does not allow %s for %s" % (ev, ss[s["id"]]))

    def other(field):
        def f(s, t):
            for e in t:
                if e["e"] == "sample" and any(e[field]):
                    for d in range(3):
                        e[field][d] = -e[field][d]
                    return t
            return None
        f.__name__ = field
        return f

    def residual(s, t):
        if not t or t[0]["e"] != "related":
            return None
        t[0]["res"][4] = 3
        return t
    if not bad:
        c.binding("PlaneWaveTrace", slim, tr, [other("E"), other("H"), residual])
