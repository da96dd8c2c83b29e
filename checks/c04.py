"""C04: what a case file means (CaseFile.tla)."""
import copy
import math
import random

import meshes

C_SI = 299792458.0


def enc(v):
    """A JSON value with its kind, as CaseFile.tla reads it."""
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, int):
        return ["i", v]
    if isinstance(v, float):
        return ["n", round(v * 1000) if abs(v) < 1e6 else 1000000000]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, list):
        return ["a", [enc(x) for x in v]]
    return ["o", {k: enc(x) for k, x in v.items()}]


def mesh(rnd, dim):
    if dim == 1:
        lo = rnd.randint(1, 3)
        at = {lo: 2, rnd.randint(lo + 1, 5): 2}
        return meshes.box("seg", [6], vol=lambda b: 1 if b[0] < 3 else 2, outer=lambda p: 1 if p[0] == 0 else 3,
                          inner=lambda a, b, p: at.get(p[0])), 6, 2
    inb = lambda b: tuple(b[:2]) == (1, 1)
    late = [inb((i % 3, i // 3, 0)) for i in range(9)]
    return meshes.box("quad", [3, 3], vol=lambda b: 1 if b[0] < 2 else 2, outer=lambda p: 1 if p[0] < 1.5 else 3,
                      inner=lambda a, b, p: 2 if inb(a) != inb(b) else None,
                      order=lambda k: sorted(range(k), key=lambda e: late[e])), 9, 4


POLS = {1: [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.6, 0.8]],
        2: [[0.0, 0.0, 1.0], [0.6, 0.8, 0.0], [1.0, 0.0, 0.0]]}


def often(rnd, d):
    k = rnd.random()
    if k < 0.35:
        d["steps"] = rnd.choice([1, 2, 3, 7])
    elif k < 0.75:
        d["saves"] = rnd.choice([1, 2, 3, 5, 100])
    return d


def probes(rnd, dim):
    p = {}
    place = lambda: [rnd.randint(0, 5 if dim == 1 else 2) + 0.5 for _ in range(dim)]
    if rnd.random() < 0.5:
        p["exporter"] = often(rnd, {"name": rnd.choice(["out", "view"])})
    if rnd.random() < 0.3:
        p["domain_snapshot"] = often(rnd, {"name": rnd.choice(["snap", "all"])})
    if rnd.random() < 0.6:
        p["point"] = [often(rnd, {"position": place()}) for _ in range(rnd.randint(0, 3))]
    if rnd.random() < 0.7:
        p["field"] = [often(rnd, {"position": place(), "field_type": rnd.choice(["electric", "magnetic"]),
                                  "polarization": rnd.choice("XYZ")}) for _ in range(rnd.randint(1, 4))]
    for k in ("farfield", "rcssurface"):
        if dim == 2 and rnd.random() < 0.2:
            p[k] = [often(rnd, {"tags": [2]})]
            if rnd.random() < 0.6:
                p[k][0]["name"] = "around"
    if rnd.random() < 0.25:
        p["mor_state"] = [{"record_time_start": rnd.choice([0.0, 0.25]), "record_time_final": rnd.choice([0.5, 1.0]),
                           "saves": rnd.choice([1, 2, 4])} for _ in range(rnd.randint(1, 2))]
        if rnd.random() < 0.5:
            p["mor_state"][0]["name"] = "states"
    return p


def source(rnd, dim):
    """A source and where it is looked at."""
    k = rnd.choice(["gaussian", "gaussian", "resonant", "bessel", "planewave", "planewave", "planewave", "dipole"])
    pol = rnd.choice(POLS[dim])
    ft = rnd.choice(["electric", "magnetic"])
    if k == "gaussian":
        spread = rnd.choice([0.25, 0.5, 2.0])
        centre = [rnd.choice([0.5, 1.0, 1.5]) for _ in range(dim)]
        gd = rnd.randint(1, dim)
        at, what = [list(centre)], ["peak"]
        for d in range(dim):
            q = list(centre)
            q[d] += rnd.choice([-1, 1]) * spread
            at.append(q)
            what.append("shoulder" if d < gd else "peak")
        return {"type": "initial", "field_type": ft, "polarization": pol, "center": centre, "dimension": gd,
                "magnitude": {"type": "gaussian", "spread": spread}}, {"at": at, "what": what, "len": 1000}
    if k == "resonant":
        modes = [rnd.randint(1, 4) for _ in range(dim)]
        at = [[1 / (2 * m) for m in modes], [3 / (2 * modes[0])] + [1 / (2 * m) for m in modes[1:]],
              [1 / (2 * m) for m in modes[:-1]] + [1 / modes[-1]], [1 / (2 * m) for m in modes[:-1]] + [1 / (6 * modes[-1])]]
        return {"type": "initial", "field_type": ft, "polarization": pol,
                "magnitude": {"type": "resonant", "modes": modes}}, {"at": at, "what": ["peak", "trough", "node", "half"], "len": 1000}
    if k == "bessel":
        t = "besselj6_2D"
        if dim == 1:
            return source(rnd, dim)
        return {"type": "initial", "field_type": ft, "polarization": pol, "magnitude": {"type": t}}, \
            {"ref": t, "f": ft, "pol": pol, "at": [[0.5, 0.4], [-0.3, 0.6]]}
    if k == "dipole":
        m = {"length": rnd.choice([0.5, 0.25]), "spread": rnd.choice([0.5, 1.0]), "mean": rnd.choice([1.0, 2.5])}
        return {"type": "dipole", "tags": [2], "magnitude": dict(m)}, \
            dict(m, ref="dipole", at=[[1.0, 0.5, 0.25], [-0.5, 0.75, 2.0]])
    prop, pol = rnd.choice([([2.0, 0.0, 0.0], [0.0, 1.0, 0.0]), ([-1.0, 0.0, 0.0], [0.0, 0.6, 0.8])] +
                           ([([1.2, 1.6, 0.0], [0.0, 0.0, 1.0]), ([0.0, 0.5, 0.0], [1.0, 0.0, 0.0])] if dim == 2 else []))
    n = math.sqrt(sum(x * x for x in prop))
    dh = [x / n for x in prop]
    spread = rnd.choice([0.25, 0.5])
    mean = [rnd.choice([-2.0, -1.0, 0.5]) for _ in range(rnd.randint(dim, 3))]
    m = sum(a * b for a, b in zip(mean, dh))
    mag = {"spread": spread, "mean": mean}
    look = [(m, "peak"), (m + spread, "shoulder"), (m - spread, "shoulder")]
    if rnd.random() < 0.4:
        f = rnd.choice([0.5, 1.0, 2.0])
        mag["frequency"] = f * C_SI
        look = [(m, "peak"), (m + 1 / (4 * f), "node"), (m - 3 / (4 * f), "node")]
    return {"type": "planewave", "tags": [2], "polarization": pol, "propagation": prop, "magnitude": mag}, \
        {"at": [[r * d for d in dh] for r, _ in look], "what": [w for _, w in look], "len": round(1000 * n)}


BAD = {"evolution_operator": ["spectral", "Global", 3], "upwind_alpha": ["half"], "final_time": [-1.0, "long"],
       "time_step": [-0.25, "short"], "cfl": [0.0, -0.5, 1.5, "x"], "order": [-1, "three"], "ode_type": [7, 9, "RK4"],
       "export_operator": ["yes"], "steps": [0, -2, "x"], "saves": ["x"],
       "field_type": ["elastic", "Electric", 3], "type": ["unknown", "Gaussian", "pec", 5],
       "relative_permittivity": [0.5, -1.0, "x"], "relative_permeability": [0.5, "x"], "bulk_conductivity": [-0.5, "x"],
       "spread": ["x"], "modes": ["x"], "dimension": [0, 4, "x"], "propagation": [[1.0, 0.0, 0.0, 0.0], "x"], "length": ["x"],
       "frequency": ["x"], "position": ["x"], "filename": ["other.msh", "case", "case.mesh", "case.msh.bak", "dir/case.msh", 3],
       "materials": [[]], "boundaries": [[]], "sources": [[]]}
NEEDED = {"model", "sources", "filename", "materials", "boundaries", "tags", "type", "field_type", "polarization", "propagation",
          "magnitude", "position", "length", "spread", "modes", "center", "dimension"}


def paths(v, here=()):
    if isinstance(v, dict):
        for k in v:
            yield here + (k,)
            yield from paths(v[k], here + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, here + (i,))


def spoil(rnd, c, where=None):
    """One entry left out or given a value it cannot have; what counts as such is the specification's business."""
    ways = []
    for p in paths(c):
        k = p[-1]
        if not isinstance(k, str):
            continue
        if k in NEEDED and not (k == "type" and "materials" in p):
            ways.append((p, "drop", None))
        bad = BAD.get(k, [])
        if k == "type" and "materials" in p:
            bad = []
        if k == "tags":
            bad = [["x"]] if "probes" in p else [[], [99], ["x"]]
        if k == "polarization":
            bad = ["W", "x", 1] if "probes" in p else [[0.0, 1.0, 0.0, 0.0], "X"]
        if k == "mean":
            bad = ["x", [1.0, 0.0, 0.0, 0.0]] if isinstance(c["sources"][p[1]]["magnitude"]["mean"], list) else ["x"]
        ways += [(p, "set", b) for b in bad]
    by = {}
    for w in ways:
        by.setdefault((w[0][-1], w[1], str(w[2]), w[0][0]), []).append(w)
    p, how, b = rnd.choice(by[rnd.choice(sorted(by))]) if where is None else by[where][0]
    o = c
    for k in p[:-1]:
        o = o[k]
    if how == "drop":
        del o[p[-1]]
    else:
        o[p[-1]] = b
    return sorted(by)


def fresh(rnd):
    op = rnd.choice([None, "global", "maxwell", "hesthaven"])
    dim = 2 if op == "hesthaven" else rnd.choice([1, 1, 2])
    m, cells, split = mesh(rnd, dim)
    o = {}
    if op:
        o["evolution_operator"] = op
    for k, vs in (("upwind_alpha", [0.0, 0.5, 1.0] if op != "hesthaven" else [0.0, 0.5]), ("final_time", [0.0, 0.5, 1.0, 3.0]),
                  ("cfl", [0.25, 0.75, 1.0]), ("order", [0, 1, 2]),
                  ("export_operator", [False, True] if dim == 1 else [False]), ("basis_type", [0, 1] if op != "hesthaven" else [1]),
                  ("ode_type", range(7)), ("spectral", [False])):
        if rnd.random() < 0.5:
            o[k] = rnd.choice(list(vs))
    if op == "hesthaven" and o.get("order", 3) == 0:
        o["order"] = 1
    if dim == 2 or rnd.random() < 0.6:
        o["time_step"] = rnd.choice([0.125, 0.25, 0.375, 0.5])
    src = []
    for _ in range(rnd.choice([1, 1, 1, 2, 3])):
        s = source(rnd, dim)
        if op == "hesthaven" and s[0]["type"] == "dipole":
            s = source(rnd, dim)
        src.append(s)
    if dim < 3:     # the dipole lives in three dimensions
        src = [s for s in src if s[0]["type"] != "dipole"] or [s for s in [source(rnd, dim) for _ in range(40)] if s[0]["type"] == "initial"][:1]
    mats = [{"tags": [1], "type": "vacuum"}]
    if rnd.random() < 0.5 and op != "hesthaven":
        mats.append({"tags": [2], "relative_permittivity": rnd.choice([1.0, 2.5])})
        if rnd.random() < 0.5:
            mats[-1]["relative_permeability"] = 1.5
        if rnd.random() < 0.5:
            mats[-1]["bulk_conductivity"] = 0.125
    walls = ["PEC", "PMC", "SMA"]
    bds = [{"tags": [1, 3], "type": rnd.choice(walls)}] if rnd.random() < 0.5 else \
        [{"tags": [t], "type": rnd.choice(walls)} for t in (1, 3)]
    model = {"filename": "case.msh", "materials": mats, "boundaries": bds}
    if rnd.random() < 0.15 and not any(s["type"] == "planewave" for s, _ in src):
        model["refinement"] = rnd.choice([0, 1])
    c = {"model": model, "sources": [s for s, _ in src]}
    if o or rnd.random() < 0.5:
        c["solver_options"] = o
    p = probes(rnd, dim)
    if p or rnd.random() < 0.3:
        c["probes"] = p
    return c, m, cells, split, [w for _, w in src]


SLAB = {"bulk_conductivity": 10.0, "material_width": 0.01}


def spoil_layer(rnd, c):
    b = {"tags": [2], "type": "SGBC"}
    k = rnd.choice(["nothing", "sigma", "width", "eps", "side", "layers", "none"])
    m = dict(SLAB)
    if k == "sigma":
        del m["bulk_conductivity"]
    elif k == "width":
        del m["material_width"]
    elif k == "eps":
        m["relative_permittivity"] = 0.5
    if k == "layers":
        b["layers"] = [dict(SLAB), {"material_width": 0.01}]
    elif k == "none":
        b["layers"] = []
    elif k != "nothing":
        b["material"] = m
    if k == "side":
        b["sgbc_boundaries"] = {"left": "SMAX"}
    c["model"]["boundaries"].append(b)


def make(rnd, i, wanted):
    c, m, cells, split, look = fresh(rnd)
    files = {"folder": "case", "json": "case", "msh": "case.msh"}
    kind = ("good", "bad", "good", "bad", "twice", "surface", rnd.choice(["names", "layer"]))[i % 7]
    if kind == "bad":
        for w in spoil(random.Random(0), copy.deepcopy(c)):
            if w not in wanted:
                wanted.add(w)
                spoil(rnd, c, w)
                break
        else:
            spoil(rnd, c)
    elif kind == "twice":
        spoil(rnd, c)
        spoil(rnd, c) if all(k in c for k in ("model", "sources")) and c["sources"] and isinstance(c["sources"], list) and \
            all("magnitude" in s for s in c["sources"]) else None
    elif kind == "names":
        files[rnd.choice(sorted(files))] = rnd.choice(["other", "Case"]) if rnd.random() < 0.7 else "case2"
        files["msh"] = files["msh"] if files["msh"].endswith(".msh") else rnd.choice(["other.msh", "none"])
    elif kind == "layer":
        spoil_layer(rnd, c)
    elif kind == "surface":
        inj = [s for s in c["sources"] if s["type"] == "planewave"]
        if inj:
            s = copy.deepcopy(inj[0])
            s["tags"] = rnd.choice([[1], [3], [1, 2], [2], [2, 2]])
            c["sources"].append(s)
            look.append(look[c["sources"].index(inj[0])])
    s = {"c": enc(c), "files": files, "vol": [1, 2], "bdr": [1, 2, 3], "cells": cells, "split": split, "kind": kind,
         "look": [{"what": w.get("what", []), "len": w.get("len", 1000)} for w in look]}
    run = {"folder": files["folder"], "json": files["json"], "case": c, "nodes": m["nodes"], "els": m["els"], "look": look}
    if files["msh"] != "none":
        run["msh"] = files["msh"]
    return s, run


def run(c):
    exe = c.build("casefile")
    c.model("CaseFileMC", "CaseFileLive", workers=4)
    c.model("CaseFileMC", "CaseFileMC" if c.quick else "CaseFileMCDeep", must_cover=("LeaveOut", "Replace", "Read"), workers=8,
            timeout=850, mem="8g")
    rnd = random.Random(c.seed)
    wanted = set()
    pairs = [make(rnd, i, wanted) for i in range(700 if c.quick else 6000)]
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample({"case": pairs[0][1]["case"], "understood": tr[0]})
    c.extra["loaded"] = sum(t[0]["e"] == "loaded" for t in tr)
    c.extra["refused"] = sum(t[0]["e"] == "refused" for t in tr)
    c.extra["ways_to_spoil"] = len(wanted)
    bad = c.validate("CaseFileTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=60, jobs=8,
                     describe=lambda s, ev, t, n: "case %s (%s) with mesh tags %s %s was %s" % (
                         full[id(s)]["case"], s["files"], s["vol"], s["bdr"], str(ev)[:900]))

    def changed(path, f):
        def g(s, t):
            if t[0]["e"] != "loaded":
                return None
            o = t[0]
            try:
                for k in path[:-1]:
                    o = o[k]
                o[path[-1]] = f(o[path[-1]])
            except (IndexError, KeyError):
                return None
            return t
        g.__name__ = "changed_" + "_".join(map(str, path))
        return g

    def quiet(s, t):
        if t[0]["e"] != "refused":
            return None
        return next([dict(u[0])] for u in tr if u[0]["e"] == "loaded")

    def loud(s, t):
        return [{"e": "refused"}] if t[0]["e"] == "loaded" else None
    if not bad:
        more = lambda x: x + 1
        c.binding("CaseFileTrace", ss, tr, [quiet, loud] + [changed(("opts", k), more) for k in ("alpha", "dt", "final", "cfl", "order", "basis", "ode")] + [
            changed(("opts", "export"), lambda x: not x), changed(("opts", "op"), lambda x: x + "x"),
            changed(("probes", "field", 0, "every"), more), changed(("probes", "field", 0, "d"), lambda x: "Q"),
            changed(("probes", "point", 0, "at", 0), more), changed(("probes", "mor_state", 0, "to"), more),
            changed(("sources", 0, "v", 0, 1), lambda x: x + 5), changed(("sources", 0, "same"), lambda x: False),
            changed(("tfsf", 0), more), changed(("cells",), more)])
