"""Small meshes as Gmsh node and element lists."""


def chain(n, pts, h=1.0, vol=1):
    """n segments along x; pts: {vertex: tag}."""
    nodes = [[i * h, 0, 0] for i in range(n + 1)]
    els = [[15, t, t, v + 1] for v, t in sorted(pts.items())]
    els += [[1, vol, vol, i + 1, i + 2] for i in range(n)]
    return nodes, els


def grid(nx, ny, tri, edges, outer=1, vol=lambda i, j: 1, lx=None, ly=None):
    """nx x ny cells (squares, or two triangles each); edges: {(a, b): tag} over vertex
    pairs for tagged interior edges; outer: tag of the border (or a function of the edge)."""
    lx = lx or nx
    ly = ly or ny
    v = lambda i, j: j * (nx + 1) + i
    nodes = [[lx * i / nx, ly * j / ny, 0] for j in range(ny + 1) for i in range(nx + 1)]
    cells = []
    for j in range(ny):
        for i in range(nx):
            a, b, c, d = v(i, j), v(i + 1, j), v(i + 1, j + 1), v(i, j + 1)
            if tri:
                cells += [([a, b, c], vol(i, j)), ([a, c, d], vol(i, j))]
            else:
                cells += [([a, b, c, d], vol(i, j))]
    share = {}
    for k, (c, _) in enumerate(cells):
        for q in range(len(c)):
            e = tuple(sorted((c[q], c[(q + 1) % len(c)])))
            share.setdefault(e, []).append(k)
    els = []
    for e, ks in sorted(share.items()):
        if len(ks) == 1:
            t = outer(e) if callable(outer) else outer
            els.append([1, t, t, e[0] + 1, e[1] + 1])
        elif e in edges:
            els.append([1, edges[e], edges[e], e[0] + 1, e[1] + 1])
    for c, t in cells:
        els.append([2 if tri else 3, t, t] + [x + 1 for x in c])
    return nodes, els, cells, share


TETS = ((0, 1, 3, 7), (0, 5, 1, 7), (0, 3, 2, 7), (0, 2, 6, 7), (0, 4, 5, 7), (0, 6, 4, 7))
HEXF = ((3, 2, 1, 0), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (4, 5, 6, 7))
CODE = {"seg": 1, "tri": 2, "quad": 3, "tet": 4, "hex": 5}
FACE = {"seg": 15, "tri": 1, "quad": 1, "tet": 2, "hex": 3}


def box(kind, n, vol=lambda b: 1, outer=lambda p: 1, inner=lambda a, b, p: None, place=lambda p: p, order=None, turn=None):
    """A box of n = (nx[, ny[, nz]]) unit cells cut into elements of one kind.  vol gives the tag of a
    cell, outer the tag of a border face by its centre, inner the tag of the face between two cells (or
    None); place moves nodes; order permutes the elements; turn rotates the local numbering."""
    dim = {"seg": 1, "tri": 2, "quad": 2, "tet": 3, "hex": 3}[kind]
    nx, ny, nz = (list(n) + [0, 0])[:3]
    v = lambda i, j, k: (k * (ny + 1) + j) * (nx + 1) + i
    pts = [[i, j, k] for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)]
    cells = []
    for k in range(max(nz, 1)):
        for j in range(max(ny, 1)):
            for i in range(nx):
                b = (i, j, k)
                if dim == 1:
                    cells.append(([v(i, 0, 0), v(i + 1, 0, 0)], b))
                elif dim == 2:
                    p, q, r, s = v(i, j, 0), v(i + 1, j, 0), v(i + 1, j + 1, 0), v(i, j + 1, 0)
                    cells += [([p, q, r], b), ([p, r, s], b)] if kind == "tri" else [([p, q, r, s], b)]
                elif kind == "tet":
                    c = [v(i + x, j + y, k + z) for z in (0, 1) for y in (0, 1) for x in (0, 1)]
                    cells += [([c[q] for q in t], b) for t in TETS]
                else:
                    cells.append(([v(i, j, k), v(i + 1, j, k), v(i + 1, j + 1, k), v(i, j + 1, k),
                                   v(i, j, k + 1), v(i + 1, j, k + 1), v(i + 1, j + 1, k + 1), v(i, j + 1, k + 1)], b))
    if order:
        cells = [cells[i] for i in order(len(cells))]
    if turn:
        cells = [(turn(kind, c), b) for c, b in cells]
    share = {}
    for e, (c, b) in enumerate(cells):
        if dim == 1:
            fs = [[c[0]], [c[1]]]
        elif dim == 2:
            fs = [[c[q], c[(q + 1) % len(c)]] for q in range(len(c))]
        elif kind == "tet":
            fs = [c[:q] + c[q + 1:] for q in range(4)]
        else:
            fs = [[c[q] for q in f] for f in HEXF]
        for f in fs:
            share.setdefault(tuple(sorted(f)), []).append((f, e, b))
    nodes = [place(p) for p in pts]
    els, faces = [], []
    for key in sorted(share):
        s = share[key]
        mid = [sum(pts[q][d] for q in key) / len(key) for d in range(3)]
        t = outer(mid) if len(s) == 1 else inner(s[0][2], s[1][2], mid)
        faces.append((key, [x[1] for x in s], t))
        if t is not None:
            els.append([FACE[kind], t, t] + [q + 1 for q in s[0][0]])
    for c, b in cells:
        els.append([CODE[kind], vol(b), vol(b)] + [q + 1 for q in c])
    return {"nodes": nodes, "els": els, "cells": cells, "faces": faces, "dim": dim, "pts": pts}


def rotate(rnd):
    """Another numbering of the nodes of an element that keeps its orientation."""
    def turn(kind, c):
        if kind in ("tri", "quad"):
            r = rnd.randrange(len(c))
            return c[r:] + c[:r]
        if kind == "tet":
            p = rnd.choice([(0, 1, 2, 3), (1, 2, 0, 3), (2, 0, 1, 3), (1, 0, 3, 2), (3, 2, 1, 0), (2, 3, 0, 1)])
            return [c[q] for q in p]
        if kind == "hex":
            r = rnd.randrange(4)
            return c[:4][r:] + c[:4][:r] + c[4:][r:] + c[4:][:r]
        return c
    return turn
