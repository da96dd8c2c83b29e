"""C18: collections of sources (SourceShelf.tla)."""
import itertools
import random


def history(rnd, n):
    """A random sequence of operations that respects what the operations need."""
    state = {b: None for b in (1, 2, 3, 4)}   # None: gone, else known?
    ops = []

    def live(known=True):
        return [b for b in state if state[b] is not None and (state[b] or not known)]
    for _ in range(n):
        ch = [("make", [b for b in state if state[b] is None])]
        if live():
            ch += [("add", live()), ("add", live()), ("assign", live()), ("look", live(False)), ("destroy", live(False)), ("moveassign", live())]
            if [b for b in state if state[b] is None]:
                ch += [("copynew", live()), ("movenew", live())]
        if live(False):
            ch += [("look", live(False))]
        o, c = rnd.choice([x for x in ch if x[1]])
        b = rnd.choice(c)
        if o == "make":
            state[b] = True
            ops.append({"op": o, "b": b})
        elif o == "destroy":
            state[b] = None
            ops.append({"op": o, "b": b})
        elif o == "add":
            ops.append({"op": o, "b": b, "k": rnd.randint(1, 10), "how": rnd.choice(["owned", "copied", "cloned"])})
        elif o == "look":
            state[b] = True
            ops.append({"op": o, "b": b})
        elif o in ("copynew", "movenew"):
            t = rnd.choice([x for x in state if state[x] is None])
            ops.append({"op": o, "a": b, "b": t})
            state[t] = True
            if o == "movenew":
                state[b] = False
        else:
            ts = live(False)
            if o == "moveassign":
                ts = [t for t in ts if t != b]
            if not ts:
                continue
            t = rnd.choice(ts)
            ops.append({"op": o, "a": b, "b": t})
            state[t] = True
            if o == "moveassign":
                state[b] = False
    for b in live(False):
        ops.append({"op": "look", "b": b})
    return {"ops": ops}


def pairs():
    """Every pair of transfer operations between two filled collections, observed after each."""
    r = []
    ops = ["copynew", "assign", "movenew", "moveassign", "self"]
    for o1, o2 in itertools.product(ops, ops):
        h = [{"op": "make", "b": 1}] + [{"op": "add", "b": 1, "k": k, "how": "owned"} for k in range(1, 11)]
        h += [{"op": "make", "b": 2}, {"op": "add", "b": 2, "k": 7, "how": "copied"}]
        for n, o in enumerate((o1, o2)):
            src = 1 if n == 0 else 3
            dst = 3 if n == 0 else 4
            if o == "self":
                h.append({"op": "assign", "a": src, "b": src})
                if n == 0:
                    h.append({"op": "copynew", "a": 1, "b": 3})
            elif o in ("copynew", "movenew"):
                h.append({"op": o, "a": src, "b": dst})
            else:
                h += [{"op": "copynew", "a": 2, "b": dst}, {"op": o, "a": src, "b": dst}]
            h += [{"op": "look", "b": b} for b in ((1, 2, 3) if n == 0 else (1, 2, 3, 4) if o != "self" else (1, 2, 3))]
            if n == 0:
                h += [{"op": "destroy", "b": 1}, {"op": "look", "b": 3}]
        h = [x for i, x in enumerate(h) if not (i > 0 and x.get("b") == 1 and x["op"] == "look" and any(y["op"] == "destroy" and y["b"] == 1 for y in h[:i]))]
        r.append({"ops": h})
    return r


def run(c):
    exe = c.build("shelf")
    c.model("SourceShelfMC", "SourceShelfMC" if c.quick else "SourceShelfMCDeep", workers=4, timeout=800)
    rnd = random.Random(c.seed)
    ss = pairs() + [history(rnd, rnd.randint(3, 30)) for _ in range(400 if c.quick else 8000)]
    tr = c.drive(exe, ss)
    slim = [{"id": i} for i in range(len(ss))]
    c.sample(ss[30], tr[30])
    bad = c.validate("SourceShelfTrace", slim, tr, rerun=lambda s: c.drive(exe, [ss[s["id"]]])[0],
                     describe=lambda s, ev, t, pos: "SourceShelf does not allow %s in history %s" % (ev, ss[s["id"]]["ops"]))

    def lost(s, t):
        for e in t:
            if e["e"] == "look" and e["has"]:
                e["has"] = e["has"][:-1]
                return t
        return None

    def swapped(s, t):
        for e in t:
            if e["e"] == "look" and len(set(e["has"])) > 1:
                e["has"] = e["has"][::-1] if e["has"] != e["has"][::-1] else e["has"][1:]
                return t
        return None
    if not bad:
        c.binding("SourceShelfTrace", slim, tr, [lost, swapped])
