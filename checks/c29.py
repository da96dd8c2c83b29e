"""C29: exported operators (OperatorFile.tla)."""
import random

import problems


def one(rnd):
    while True:
        _, r = problems.general_problem(rnd, "global", "agree", conducting=True)
        o = r["opts"]
        dim = {1: 1, 2: 2, 3: 2, 4: 3, 5: 3}[r["els"][-1][0]]
        size = len(r["centres"]) * (o["order"] + 1) ** dim
        if size <= 60:
            break
    idle = [{"type": "initial", "field_type": "electric", "polarization": [0.0, 1.0, 0.0], "center": [0.5] * dim,
             "dimension": dim, "magnitude": {"type": "gaussian", "spread": 1.0}}]
    so = {"order": o["order"], "upwind_alpha": o["alpha"], "evolution_operator": "global", "basis_type": 1, "final_time": 1.0,
          "time_step": 0.01, "export_operator": True}
    return {"case": dict(r["case"], sources=idle, solver_options=so), "nodes": r["nodes"], "els": r["els"], "seed": rnd.randint(1, 10000)}


def run(c):
    exe = c.build("operator")
    c.model("OperatorFileMC", "OperatorFileMC" if c.quick else "OperatorFileMCDeep", must_cover=("Put", "Simulate", "Again"), workers=4)
    rnd = random.Random(c.seed)
    full = [{"runs": [one(rnd) for _ in range(rnd.choice([1, 2]))]} for _ in range(40 if c.quick else 400)]
    ss = [{"n": i} for i in range(len(full))]
    tr = c.drive(exe, full)
    c.sample(full[0]["runs"][0]["case"], {"numbers": len(tr[0][0].get("f", []))})
    bad = c.validate("OperatorFileTrace", ss, tr, rerun=lambda s: c.drive(exe, [full[s["n"]]])[0], batch=8, jobs=8,
                     describe=lambda s, ev, t, n: "%s: %s" % ([q["case"]["solver_options"] for q in full[s["n"]]["runs"]], str(ev)[:200]))

    def entry(s, t):
        t[0]["f"][-1] += 100 + abs(t[0]["f"][-1])
        return t

    def cut(s, t):
        t[0]["f"].pop()
        return t

    def rate(s, t):
        t[-1]["r"][-1] += 100 + abs(t[-1]["r"][-1])
        return t

    def differs(s, t):
        t[-1]["same"] = False
        return t
    if not bad:
        c.binding("OperatorFileTrace", ss, tr, [entry, cut, rate, differs])
