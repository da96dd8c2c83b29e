"""C15: the sides of a total-field surface (Tfsf.tla)."""
import math
import random

import meshes
import problems


def region(rnd, kind, n):
    """The cells inside: stretches, any set of squares, or boxes."""
    dim = len(n)
    if dim == 1:
        lo = rnd.randint(1, n[0] - 1)
        hi = n[0] if rnd.random() < 0.3 else rnd.randint(lo, n[0] - 1)
        return {(i, 0, 0) for i in range(lo, max(hi, lo + 1))}
    allc = [(i, j, k) for k in range(n[2] if dim == 3 else 1) for j in range(n[1]) for i in range(n[0])]
    if dim == 2 and rnd.random() < 0.4:
        s = {b for b in allc if rnd.random() < 0.4}
        return s if 0 < len(s) < len(allc) else region(rnd, kind, n)
    if all(k > 2 for k in n) and rnd.random() < 0.5:      # away from the border
        lo = [rnd.randint(1, k - 2) for k in n]
        hi = [rnd.randint(a + 1, k - 1) for a, k in zip(lo, n)]
        return {b for b in allc if all(lo[d] <= b[d] < hi[d] for d in range(dim))}
    while True:
        lo = [rnd.randint(0 if n[d] == 1 or rnd.random() < 0.3 else 1, n[d] - 1) for d in range(dim)]
        hi = [rnd.randint(lo[d] + 1, n[d]) for d in range(dim)]
        s = {b for b in allc if all(lo[d] <= b[d] < hi[d] for d in range(dim))}
        if not 0 < len(s) < len(allc):
            continue
        if dim == 3:      # not a single plane
            free = [(lo[d] > 0) + (hi[d] < n[d]) for d in range(3)]
            if sum(free) < 2:
                continue
        return s


def make(rnd, big):
    op = rnd.choice(["global", "global", "maxwell", "hesthaven"])
    kind = rnd.choice(["seg", "quad", "tri", "tri", "hex", "tet", "tet"] if op != "hesthaven" else ["tri", "tri", "quad", "tet"])
    dim = {"seg": 1, "tri": 2, "quad": 2, "tet": 3, "hex": 3}[kind]
    n = {1: [rnd.randint(3, 7)], 2: [rnd.randint(2, 5), rnd.randint(3, 4)],
         3: rnd.choice([[3, 3, 3], [2, 2, 2], [3, 3, 1], [4, 2, 1]] if kind == "hex" or big else [[2, 2, 1], [3, 1, 1], [2, 2, 2], [3, 3, 1], [3, 3, 3]])}[dim]
    if op == "hesthaven" and kind == "tet":
        n = rnd.choice([[3, 1, 1], [2, 2, 1]])
    ins = region(rnd, kind, n)
    per = {"tri": 2, "tet": 6}.get(kind, 1)
    flat = rnd.choice([1.0, 0.5, 0.25]) if dim == 3 else 1.0
    sk = problems.skewed(rnd, dim, kind) if rnd.random() < 0.5 and dim == 2 else lambda p: list(p)
    place = lambda p: [a * s for a, s in zip(sk(p), (1.0, 1.0, flat))]

    def order(k):
        o = list(range(k)) if rnd.random() < 0.3 else rnd.sample(range(k), k)
        if dim == 1:
            return list(range(k))
        if dim == 2:     # outside first
            late = lambda e: ((e // per) % n[0], (e // per) // n[0], 0) in ins
            return sorted(o, key=late)
        return o
    m = meshes.box(kind, n, inner=lambda a, b, p: 2 if (a in ins) != (b in ins) else None, place=place, order=order,
                   turn=meshes.rotate(rnd) if rnd.random() < 0.5 else None)
    ne = len(m["cells"])
    cs = problems.centres(m)
    S = 2048
    faces = [[] for _ in range(ne)]
    bordered = False
    for key, es, t in m["faces"]:
        if len(es) == 1 and m["cells"][es[0]][1] in ins:
            bordered = True
        if t != 2:
            continue
        A = problems.area(m["nodes"], key, dim, kind)
        a = math.sqrt(sum(x * x for x in A))
        mid = [sum(m["nodes"][q][d] for q in key) / len(key) for d in range(3)]
        for e in es:
            sgn = 1 if sum(A[i] * (mid[i] - cs[e][i]) for i in range(3)) > 0 else -1
            faces[e].append({"N": [round(S * sgn * x) for x in A],
                             "P": [[round(S * (A[i] * A[j] / a - (a if i == j else 0))) for j in range(3)] for i in range(3)]})
    inside = [e + 1 for e, (_, b) in enumerate(m["cells"]) if b in ins]
    inc = [[rnd.randint(-3, 3) for _ in range(6)] for _ in range(2)]
    alpha2 = rnd.choice([0, 1, 2])
    bc = rnd.choice(["PEC", "PMC"])
    q = {"n": ne, "S": S, "alpha2": alpha2, "slack": 900, "inc": inc, "inside": inside, "faces": faces, "kind": kind, "op": op}
    c = [[[inc[0][3 * f + d], 0, 0, 0, inc[1][3 * f + d]] for d in range(3)] for f in range(2)]
    els = m["els"]
    if rnd.random() < 0.5:      # the faces in another order
        nf = len(els) - ne
        els = rnd.sample(els[:nf], nf) + els[nf:] if dim > 1 else els
    ordr = {"seg": rnd.choice([1, 2, 3]), "quad": rnd.choice([1, 2]), "tri": rnd.choice([1, 2, 3]), "tet": 1, "hex": 1}[kind]
    run = {"mode": "sides", "case": problems.case(problems.VACUUM, [{"tags": [1], "type": bc}]), "nodes": m["nodes"], "els": els,
           "tfsf": [2], "centres": cs, "S": S, "inside": inside, "still": not bordered, "times": [0, 1, 6],
           "source": {"kind": "affine", "c": c}, "opts": {"op": op, "order": ordr, "alpha": alpha2 / 2, "basis": 1}}
    return q, run


def run(c):
    exe = c.build("scheme")
    for cfg in ("TfsfMC", "TfsfMCCentre", "TfsfMCAny") + (() if c.quick else ("TfsfMCDeep",)):
        c.model("TfsfMC", cfg, must_cover=("Next",), workers=4)
    rnd = random.Random(c.seed)
    pairs = [make(rnd, not c.quick) for _ in range(120 if c.quick else 1200)]
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample({"inside": ss[0]["inside"], "opts": pairs[0][1]["opts"], "injected": tr[0][1] if len(tr[0]) > 1 else tr[0]})
    bad = c.validate("TfsfTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=60, jobs=8,
                     describe=lambda s, ev, t, n: "%s %s with %s, inside %s: event %d %s" % (
                         s["op"], s["kind"], full[id(s)]["opts"], s["inside"], n, str(ev)[:300]))
    first = lambda t, e: [x for x in t if x["e"] == e]

    def swapped(s, t):
        for ev in first(t, "inject"):
            for i, f in enumerate(s["faces"]):
                if f and any(abs(v) > 100 for v in ev["m"][i]):
                    ev["m"][i] = [-v for v in ev["m"][i]]
                    return t
        return None

    def elsewhere(s, t):
        for i, f in enumerate(s["faces"]):
            if not f:
                first(t, "inject")[0]["quiet"][i] = 0
                return t
        return None

    def moving(s, t):
        k = first(t, "still")
        if not k:
            return None
        k[-1]["top"] = 5
        return t

    def marked(s, t):
        first(t, "after")[-1]["mesh"]["el"][0][0] += 1
        return t
    if not bad:
        c.binding("TfsfTrace", ss, tr, [swapped, elsewhere, moving, marked])
