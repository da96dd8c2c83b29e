import runloop as r

KINDS = ["field", "point", "view", "near", "snap", "surf"]


def run(c):
    every = [r.base(dt=2, tf=13, unit="1/64", ode=o, probes=[{"kind": k, "steps": 3, "saves": s} for k in KINDS])
             for s in (0, 1, 2, 3, 7, 20) for o in (0, 1)]
    every += [r.base(dt=1, tf=1024, unit="1/1024", probes=[{"kind": k, "steps": 1, "saves": 50}]) for k in KINDS]
    every += [r.base(dt=3, tf=400, unit="1/600", probes=[{"kind": k, "steps": 37, "saves": 0}]) for k in KINDS]
    every += [r.base(dt=4, tf=18, unit="1/4000000000", probes=[{"kind": k, "steps": 3, "saves": 0}]) for k in KINDS if k != "view"]

    def other(row):
        row[-1][2] -= 1

    def time(row):
        row[-1][1] += 1

    def cycle(row):
        row[0][0] += 1
    changes = [r.alter("lost record", "records", r.rows("rec", lambda x: x.pop())),
               r.alter("added record", "records", r.rows("rec", lambda x: x.append(x[-1]))),
               r.alter("other state", "records", r.rows("rec", other)), r.alter("other time", "records", r.rows("rec", time)),
               r.alter("other cycle", "records", r.rows("rec", cycle))]
    r.conform(c, "probes", 220 if c.quick else 2500, "SolverRunProbes", changes, every)
