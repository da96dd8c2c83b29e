"""C01, C02, C03: the time loop and everything recorded along it (SolverRun.tla)."""


def scenarios(c, what, n):
    args = ("-seed", str(c.seed))
    s = c.generate("SolverRunGen", "SolverRunGen" if c.quick else "SolverRunGenDeep", env={"WHAT": what}, args=args)
    s.sort(key=lambda x: repr(x))
    if len(s) > n:
        # spread over the whole list, shifted by the seed
        step = len(s) / n
        s = [s[int((i * step + c.seed * 0.37 * step) % len(s))] for i in range(n)]
    return s


def key(s, ev):
    num, den = s["unit"].split("/")
    tick = float(num) / float(den)
    if tick * s["dt"] < 1e-8 and ev.get("e") == "records":
        # exactly the steps within 1e-8 of the end, and no others, recorded in excess
        n = -(-s["tf"] // s["dt"])
        t = [min(k * s["dt"], s["tf"]) for k in range(n + 1)]
        want = [[k, t[k], k] for k in range(n + 1) if (s["tf"] - t[k]) * tick < 1e-8 or k % s["probes"][0]["steps"] == 0]
        if ev["rec"] == [want]:
            return "step below the absolute end tolerance"
    return None


def conform(c, what, n, cfg, changes, extra=()):
    exe = c.build("runloop")
    c.model("SolverRunMC", "SolverRunMC" if c.quick else "SolverRunMCDeep", must_cover=("Step", "Finish"), workers=4, timeout=800)
    ss = scenarios(c, what, n) + list(extra)
    tr = c.drive(exe, ss, per=5)
    c.sample(ss[0], ss[len(ss) // 2], tr[len(ss) // 2][:6])
    bad = c.validate("SolverRunTrace", ss, tr, cfg=cfg, key=key, rerun=lambda s: c.drive(exe, [s], per=30)[0])
    if not bad:
        c.binding("SolverRunTrace", ss, tr, changes, cfg=cfg)


def alter(name, want, change):
    """A change to the first event of kind `want` for which `change` applies."""
    def f(s, tr):
        for ev in tr:
            if ev["e"] == want and change(ev):
                return tr
        return None
    f.__name__ = name
    return f


def bump(k, d=1):
    def f(ev):
        ev[k] += d
        return True
    return f


def rows(k, act):
    def f(ev):
        for r in ev[k]:
            if len(r) > 1:
                act(r)
                return True
        return False
    return f


def base(**kw):
    s = {"dt": 1, "tf": 5, "calls": [0], "complete": True, "unit": "1/64", "probes": [], "mor": [], "ode": 0,
         "sourced": False, "auto": False}
    s.update(kw)
    return s
