"""Surfaces of boxes for the checks on surface exports (SurfaceExport.tla)."""
import meshes
from problems import VACUUM, case

FORMAT = {"dim", "boxes", "snaps", "peak", "angles", "m", "judge"}


def layout(rnd, dim, kind, two, small=False):
    """A grid with one or two boxes strictly inside it: lines, boxes in cells, boxes in coordinates."""
    n = [3] * dim
    if not small:
        for d in range(min(dim, 2)):
            n[d] = rnd.choice([3, 4]) if dim == 2 else 3
    if two:
        n[0] = 5
    lines = []
    for d in range(dim):
        at = [rnd.choice([1, 2, -9])]
        for _ in range(n[d]):
            at.append(at[-1] + rnd.choice([1, 1, 2]))
        lines.append(at)
    if two:
        cells = [([1] * dim, [2] + [2] * (dim - 1)), ([3] + [1] * (dim - 1), [4] + [2] * (dim - 1))]
    else:
        lo = [1] * dim
        cells = [(lo, [rnd.randint(lo[d] + 1, n[d] - 1) for d in range(dim)])]
    boxes = [{"lo": [lines[d][a[d]] for d in range(dim)], "hi": [lines[d][b[d]] for d in range(dim)]} for a, b in cells]
    return n, lines, cells, boxes


def make(rnd, dim, ranks, judge="value", two=False, small=False, nsnaps=None):
    kind = rnd.choice(["quad", "tri"] if dim == 2 else ["hex", "hex", "tet"])
    n, lines, cells, boxes = layout(rnd, dim, kind, two, small)
    inb = lambda b: any(all(lo[d] <= b[d] < hi[d] for d in range(dim)) for lo, hi in cells)
    per = {"quad": 1, "tri": 2, "hex": 1, "tet": 6}[kind]
    nx, ny = n[0], n[1]
    blk = lambda e: ((e // per) % nx, (e // per) // nx % ny, (e // per) // (nx * ny))
    last = rnd.random() < 0.5        # the elements inside are numbered first or last
    order = lambda k: sorted(range(k), key=lambda e: inb(blk(e)) == last)
    m = meshes.box(kind, n, outer=lambda p: 1, inner=lambda a, b, p: rnd.choice([2, 3]) if inb(a) != inb(b) else None,
                   place=lambda p: [float(lines[d][p[d]]) if d < dim else 0.0 for d in range(3)], order=order)
    els = []
    for e in m["els"]:
        if e[1] in (2, 3) and e[0] == meshes.FACE[kind] and rnd.random() < 0.4:
            e = e[:3] + e[3:][::-1]
        els.append(e)
    tags = sorted({e[1] for e in els if e[0] == meshes.FACE[kind] and e[1] in (2, 3)})
    ne = len(m["cells"])
    part = [rnd.randrange(ranks) for _ in range(ne)]
    if rnd.random() < 0.4:           # contiguous blocks, so that some ranks own nothing of the surface
        part = [min(ranks - 1, i * ranks // ne) for i in range(ne)]
    for r in range(ranks):
        if r not in part:
            part[rnd.randrange(ne)] = r
    axis = rnd.randrange(dim)
    ns = nsnaps or rnd.choice([1, 2, 3, 4])
    times = sorted(rnd.sample(range(0, 9), ns))
    across = kind == "tet" or rnd.random() < 0.5     # no components along the direction

    def comp(c):
        if across and c % 3 == axis:
            return [0, 0, 0, 0]
        return [rnd.randint(-2, 2)] + [rnd.choice([-1, 0, 0, 1]) if d == axis or across and d < dim else 0 for d in range(3)]
    snaps = [{"t": t, "c": [comp(c) for c in range(6)]} for t in times]
    if axis == 2:
        angles = [[0, rnd.randrange(4)], [2, rnd.randrange(4)]]
    else:
        angles = [[1, axis], [1, axis + 2]]
    rnd.shuffle(angles)
    peak = times[0] if judge == "length" else rnd.choice(times)
    prop = rnd.choice([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0], [0.6, 0.8, 0.0]])
    mag = {"type": "gaussian", "spread": 0.05, "mean": [-peak * x for x in prop]}
    if rnd.random() < 0.4:
        mag.update(type="modulated", frequency=3e8)
    cs = case(VACUUM, [{"tags": [1], "type": "PEC"}])
    cs["model"]["filename"] = "surf.msh"
    cs["probes"] = {"rcssurface": [{"name": "skin", "steps": 1, "tags": tags}]}
    g = {"dim": dim, "boxes": boxes, "snaps": snaps, "peak": peak, "angles": angles,
         "m": rnd.sample([1, 2, 3], rnd.choice([1, 2, 2, 3])), "judge": judge}
    run = dict(g, case=cs, nodes=m["nodes"], els=els, ranks=ranks, part=part, order=rnd.choice([1, 1, 2]) if dim == 2 else 1,
               mode="single-core" if ranks == 1 else "mpi-%d" % ranks, wave={"type": "planewave", "magnitude": mag, "propagation": prop})
    return g, run
