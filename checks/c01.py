import runloop as r


def run(c):
    c.model("SolverRunMC", "SolverRunLive", timeout=600)
    long = [r.base(dt=d, tf=f, calls=k, unit=u, sourced=True, ode=o)
            for d, f, k, u, o in [(1, 1500, [0], "1/1000", 0), (7, 3001, [13, 100, 0], "1/3000", 0),
                                  (3, 1000, [333, 0], "1/700", 1), (1000, 1, [0], "1/50", 0),
                                  (999, 1000, [0], "1/9000", 0), (1, 900, [1, 1, 1, 0, 0], "1/900", 4)]]
    changes = [r.alter("step length", "step", r.bump("dt")), r.alter("step end", "step", r.bump("t1")),
               r.alter("time shown", "shown", r.bump("t", -1)), r.alter("step start", "step", r.bump("t0")),
               r.alter("stage", "step", lambda e: e["stages"] and not e["stages"].insert(0, 12345))]
    r.conform(c, "clock", 220 if c.quick else 2500, "SolverRunTrace", changes, long)
