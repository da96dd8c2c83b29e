"""C13: the grid behind a layered face (LayerGrid.tla)."""
import random

from problems import VACUUM, Z0, case


def make(rnd):
    layers = []
    for _ in range(rnd.choice([1, 1, 2, 3, 4])):
        k = rnd.choice([1, 2, 3])
        layers.append({"eps": rnd.choice([1, 2, 4]), "mu": rnd.choice([1, 1, 2, 4]), "sig": rnd.choice([0, 0, 1, 3]),
                       "width": k * rnd.choice([1, 2]), "cells": k, "order": rnd.choice([1, 1, 2])})
    ends = {"left": "", "right": ""}
    for s in ends:
        if rnd.random() < 0.25:
            ends[s] = rnd.choice(["PEC", "PMC", "SMA"])
    n = rnd.choice([3, 4, 5])
    at = rnd.randint(1, n - 1)
    lens = [rnd.choice([1, 2]) for _ in range(n)]
    alpha2 = 2 if "SMA" in ends.values() else rnd.choice([0, 1, 2, 2])
    row = {"order": rnd.choice([1, 2]), "alpha2": alpha2, "len": lens, "ends": rnd.choice(["PEC", "PMC", "SMA"])}
    js = []
    for y in layers:
        d = {"material_width": float(y["width"]), "num_of_segments": y["cells"], "order": y["order"]}
        for k, v, q in (("relative_permittivity", float(y["eps"]), 1), ("relative_permeability", float(y["mu"]), 1),
                        ("bulk_conductivity", y["sig"] / Z0, 0)):
            if k == "bulk_conductivity" or v != q or rnd.random() < 0.5:
                d[k] = v
        js.append(d)
    b = {"tags": [31], "type": "SGBC", "layers": js}
    if any(ends.values()):
        b["sgbc_boundaries"] = {s: t for s, t in ends.items() if t}
    nodes, x = [[0.0, 0.0, 0.0]], 0.0
    for h in lens:
        x += h
        nodes.append([x, 0.0, 0.0])
    els = [[15, 11, 11, 1], [15, 11, 11, n + 1], [15, 31, 31, at + 1]] + [[1, 1, 1, i + 1, i + 2] for i in range(n)]
    stack = {"layers": layers, "left": ends["left"], "right": ends["right"]}
    g = {"stack": stack, "row": row, "at": at}
    inner = sum(y["cells"] for y in layers) * (max(y["order"] for y in layers) + 1)
    cs = case(VACUUM, rnd.sample([b, {"tags": [11], "type": row["ends"]}], 2))
    run = {"mode": "stack", "problem": {"case": cs, "nodes": nodes, "els": els}, "seed": rnd.randrange(1000), "inner": inner,
           "order": max(y["order"] for y in layers), "opts": {"op": "global", "order": row["order"], "alpha": alpha2 / 2, "dt": 1 / 64}}
    return g, run


def run(c):
    exe = c.build("slab")
    c.model("LayerGridMC", "LayerGridMC" if c.quick else "LayerGridMCDeep", must_cover=("AddCell",), workers=4)
    rnd = random.Random(c.seed)
    pairs = [make(rnd) for _ in range(120 if c.quick else 1200)]
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs])
    c.sample({"scenario": ss[0], "events": [tr[0][0]]})
    bad = c.validate("LayerGridTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=60, jobs=8,
                     describe=lambda s, ev, t, n: "%s: %s" % (s, str(ev)[:400]))

    def other_cell(s, t):
        k = [e for e in t if e["e"] == "slab"]
        if len(s["stack"]["layers"]) < 2 or not k:
            return None
        r = k[0]["r"]
        i = len(r) // 2
        r[i], r[i - 1] = r[i - 1], r[i]
        return t if r[i] != r[i - 1] else None

    def heavy_padding(s, t):
        k = [e for e in t if e["e"] == "slab"]
        for nd in k[0]["p"][1]:
            for j in range(3):
                nd[j] = nd[j] // 2
        return t if any(v for nd in k[0]["p"][1] for v in nd[:3]) else None

    def sides(s, t):
        k = [e for e in t if e["e"] == "feed"]
        f = k[-1]["fed"][0]
        k[-1]["fed"][0] = f[6:] + f[:6]
        return t if f[6:] != f[:6] else None

    def deeper(s, t):
        k = [e for e in t if e["e"] == "see"]
        u = k[0]["slab"]
        p = (len(u) - sum(y["cells"] for y in s["stack"]["layers"])) // 2
        if s["stack"]["left"] or u[p][0][1:3] == u[p][1][1:3]:
            return None
        u[p][0], u[p][1] = u[p][1], u[p][0]
        return t
    if not bad:
        c.binding("LayerGridTrace", ss, tr, [other_cell, heavy_padding, sides, deeper])
