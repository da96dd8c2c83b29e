import runloop as r


def run(c):
    more = [r.base(dt=3, tf=200, unit="1/250", mor=[{"start": a, "final": b, "saves": n}])
            for a, b, n in [(0, 200, 11), (20, 120, 50), (20, 120, 500), (199, 200, 3), (200, 200, 1), (7, 8, 2), (150, 900, 10)]]

    def other(row):
        row[-1][2] -= 1
    changes = [r.alter("lost snapshot", "records", r.rows("mor", lambda x: x.pop())),
               r.alter("added snapshot", "records", r.rows("mor", lambda x: x.append(x[-1]))),
               r.alter("other state", "records", r.rows("mor", other))]
    r.conform(c, "windows", 220 if c.quick else 2500, "SolverRunProbes", changes, more)
