"""C23: the same problem on one rank and on several (SplitMC.tla, SplitTrace.tla)."""
import random

import c15
import layers
import problems


def split(rnd, ne):
    """A distribution that leaves no rank without elements."""
    n = rnd.choice([2, 2, 3, 4])
    n = min(n, ne)
    if rnd.random() < 0.4:
        part = [i * n // ne for i in range(ne)]
    else:
        part = [rnd.randrange(n) for _ in range(ne)]
    for r, e in enumerate(rnd.sample(range(ne), n)):
        part[e] = r
    return {"ranks": n, "part": part}


def finish(rnd, r, cs, steps, slack=3, sources=None):
    """Everything as a case file has it: the driver builds the solver from it."""
    ne = len(cs)
    o = r["opts"]
    so = {"order": o.get("order", 1), "upwind_alpha": o.get("alpha", 1.0), "evolution_operator": o["op"], "basis_type": 1,
          "final_time": 1000.0}
    if o.get("dt"):
        so["time_step"] = o["dt"]
    if o.get("ode"):
        so["ode_type"] = o["ode"]
    dim = {1: 1, 2: 2, 3: 2, 4: 3, 5: 3}[r["els"][-1][0]]
    idle = [{"type": "initial", "field_type": "electric", "polarization": [0.0, 1.0, 0.0], "center": [0.5] * dim,
             "dimension": dim, "magnitude": {"type": "gaussian", "spread": 1.0}}]
    case = dict(r["case"], sources=sources or idle, solver_options=so)
    run = {"case": case, "nodes": r["nodes"], "els": r["els"]}
    run.update(centres=cs, seed=rnd.randint(1, 1000), times=r.get("times", [0.0]), steps=steps, S=4096,
               runs=[{"ranks": 1, "part": [0] * ne}, split(rnd, ne), split(rnd, ne)])
    return {"slack": slack, "dtslack": 1}, run


def walls(rnd, op):
    s, r = problems.general_problem(rnd, op, "agree", conducting=op == "global", big=True)
    r["opts"]["op"] = op
    r["opts"]["dt"] = rnd.choice([0.0, 1 / 256])
    if rnd.random() < 0.3 and op == "global":
        r["opts"]["ode"] = rnd.choice([1, 2, 3])
    return finish(rnd, r, r["centres"], 3)


def injected(rnd, op):
    q, r = c15.make(rnd, False)
    while q["op"] == "hesthaven" or len(r["centres"]) > 70:
        q, r = c15.make(rnd, False)
    spread = rnd.choice([0.5, 1.0, 2.0])
    mag = {"type": "gaussian", "spread": spread}
    prop, pol = rnd.choice([([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]), ([-1.0, 0.0, 0.0], [0.0, 0.0, 1.0]),
                            ([0.6, 0.8, 0.0], [-0.8, 0.6, 0.0]), ([0.0, 0.0, 2.0], [1.0, 0.0, 0.0])])
    late = 5 * 1.5 * spread      # when an automatic delay has passed
    if rnd.random() < 0.5:
        mag["mean"] = [-1.0, 0.0, 0.0]
        late = 1.0
    src = [{"type": "planewave", "tags": [2], "propagation": prop, "polarization": pol, "magnitude": mag}]
    if rnd.random() < 0.3:
        src.append(dict(src[0], polarization=[-x for x in pol], magnitude={"type": "gaussian", "spread": 1.0, "mean": [0.25, 0.0, 0.0]}))
    return finish(rnd, dict(r, opts=dict(r["opts"], op=op, dt=1 / 256), times=[0.0, late]), r["centres"], 2, sources=src)


def layered(rnd):
    kind = rnd.choice(["seg", "tri", "quad", "tet", "hex"])
    p, per, inside, dt, opts = layers.make(rnd, kind, rnd.choice([1, 2]), apart=rnd.random() < 0.5)
    nb = {15: 0, 1: 1, 2: 2, 3: 2, 4: 3, 5: 3}
    top = max(nb[e[0]] for e in p["els"])
    cells = [e[3:] for e in p["els"] if nb[e[0]] == top]
    cs = [[sum(p["nodes"][v - 1][d] for v in c) / len(c) for d in range(3)] for c in cells]
    return finish(rnd, dict(p, opts=dict(opts, op="global")), cs, 3)


def run(c):
    exe = c.build("split")
    c.model("SplitMC", "SplitMC" if c.quick else "SplitMCDeep", must_cover=("Send", "Receive", "Advance"), workers=4)
    rnd = random.Random(c.seed)
    k = 1 if c.quick else 6
    pairs = [walls(rnd, ["global", "maxwell"][i % 2]) for i in range(32 * k)]
    pairs += [injected(rnd, ["global", "maxwell"][i % 2]) for i in range(24 * k)]
    pairs += [layered(rnd) for i in range(24 * k)]
    ss = [a for a, _ in pairs]
    full = {id(a): b for a, b in pairs}
    tr = c.drive(exe, [b for _, b in pairs], jobs=4)
    c.sample({"options": pairs[0][1]["case"]["solver_options"], "runs": pairs[0][1]["runs"]})
    bad = c.validate("SplitTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[id(s)]])[0], batch=20, jobs=8,
                     describe=lambda s, ev, t, n: "%s %s on %s: %s" % (
                         full[id(s)]["case"]["solver_options"], full[id(s)]["case"]["sources"], full[id(s)]["runs"][n - 1:n], diff(t, ev)))

    def rate(s, t):
        t[-1]["what"][1]["v"][-1][0] += 40
        return t

    def late(s, t):
        t[1]["what"][-1]["v"][0][-1] -= 40
        return t

    def step(s, t):
        t[-1]["dts"][-1] += 1
        return t

    def twice(s, t):
        t[-1]["owners"][0] = 2
        return t
    if not bad:
        c.binding("SplitTrace", ss, tr, [rate, late, step, twice])


def diff(t, ev):
    if ev.get("status"):
        return "ended with status %s %s" % (ev["status"], ev.get("why"))
    try:
        ref = t[0]
        out = ["dt %s %s" % (ref["dts"], ev["dts"])]
        for a, b in zip(ref["what"], ev["what"]):
            n = [i for i, (x, y) in enumerate(zip(a["v"], b["v"])) if x != y and (len(x) != len(y) or max(abs(p - q) for p, q in zip(x, y)) > 3)]
            out.append("%s differs in elements %s" % (a["name"], n))
        return "; ".join(out)
    except (KeyError, IndexError, TypeError):
        return str(ev)[:200]
