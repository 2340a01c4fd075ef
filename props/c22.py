"""Voxel grid."""
from building3d.sim.rays.find_nearby_polygons import find_nearby_polygons
from building3d.sim.rays.voxel_grid import make_voxel_grid

from props.common import raises
from symex.ctx import AND, Case, OR

ASSUMPTIONS = [
    "polygon shapes are fixed, their position, the grid's region and the points looked at are"
    " symbolic; cell sizes are powers of two (so that cell limits are exact floats)",
    "points looked at are convex combinations of the corners of a triangle of the polygon",
]
M = 1e-3

SHAPES = {
    "tri": ([(0, 0, 0), (1.75, 0, 0), (0.5, 1.25, 0)], [(0, 1, 2)]),
    "wall": ([(0, 0, 0), (0, 1.75, 0), (0, 1.75, 1), (0, 0, 1)], [(0, 1, 2), (0, 2, 3)]),
    "slope": ([(0, 0, 0), (1.5, 0, 0.75), (1.5, 1.25, 1.5), (0, 1.25, 0.75)], [(0, 1, 2), (0, 2, 3)]),
    "ell": ([(0, 0, 0), (2.25, 0, 0), (2.25, 0.75, 0), (0.75, 0.75, 0), (0.75, 1.5, 0), (0, 1.5, 0)],
            [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5)]),
    "thin": ([(0, 0, 0), (0.125, 0, 0), (0.125, 0.125, 0.0625)], [(0, 1, 2)]),
}


def shift(h, free, span, prefix="t"):
    return [h.real(prefix + c, *span[c]) if c in free else span[c][0] + 0.125 for c in "xyz"]


def moved(shape, t):
    return [[p[k] + t[k] for k in range(3)] for p in SHAPES[shape][0]]


def on(h, pts, tri, name):
    """Point of a triangle of the polygon."""
    i, j, k = tri
    a = h.real(name + "a", 0, 1)
    b = h.real(name + "b", 0, 1)
    h.assume(a + b <= 1)
    return [pts[i][c] + a * (SH[j][c] - SH[i][c]) + b * (SH[k][c] - SH[i][c]) for c in range(3)]


SH = None


def cell(p, step):
    import math
    return tuple(int(math.floor(x / step)) for x in p)


def grid_of(h, polys, step, lo=None, hi=None):
    pts = [p for q in polys for p in q]
    lo = lo or [min(p[k] for p in pts) for k in range(3)]
    hi = hi or [max(p[k] for p in pts) for k in range(3)]
    return make_voxel_grid(tuple(lo), tuple(hi), [h.array(p) for p in polys], step=step,
                           verbose=False), lo, hi


def listed(h, grid, polys, step):
    for key, nums in grid.items():
        nums = [int(n) for n in nums]
        h.check(len(set(nums)) == len(nums) and all(0 <= n < len(polys) for n in nums),
                "a cell lists a polygon once")
        for n in nums:
            for k in range(3):
                h.check(AND(OR(*[p[k] >= key[k] * step for p in polys[n]]),
                            OR(*[p[k] <= (key[k] + 1) * step for p in polys[n]])),
                        "a cell lists only polygons near it")


def case(shapes, free, step, what):
    def fn(h):
        global SH
        span = {"x": (-1.0, 1.0), "y": (0.25, 1.5), "z": (-0.5, 0.5)}
        t = shift(h, free, span)
        polys = [moved(shapes[0], t)] + [moved(s, (0.5, -0.75, 0.25)) for s in shapes[1:]]
        grid, lo, hi = grid_of(h, polys, step)
        if what == "cells":
            listed(h, grid, polys, step)
        n = h.int("n", 0, len(polys) - 1)
        tri = h.int("tri", 0, len(SHAPES[shapes[n]][1]) - 1)
        SH = SHAPES[shapes[n]][0]
        q = on(h, polys[n], SHAPES[shapes[n]][1][tri], "q")
        key = cell(q, step)
        h.check(key in grid, "there is a cell for every point of a polygon")
        h.check(n in [int(i) for i in grid[key]], "polygon listed in the cell of its point")
        if what == "near":
            d = h.int("d", 0, 2)
            p = list(q)
            p[d] = h.real("p", -4, 6)
            h.assume(AND(p[d] >= lo[d], p[d] <= hi[d], p[d] - q[d] < step, q[d] - p[d] < step))
            near = find_nearby_polygons(*cell(p, step), grid)
            h.check(n in [int(i) for i in near], "polygon found nearby")
    return fn


def nearby(h):
    """The polygons of the cell and of its 26 neighbours, and no others."""
    x, y, z = (h.int(c, -2, 2) for c in "xyz")
    gap = h.int("gap", 0, 3)
    grid, n = {}, 0
    for i in range(-3, 4):
        for j in range(-3, 4):
            for k in range(-3, 4):
                if (i + 2 * j + 3 * k) % 4 != gap:  # some cells are missing
                    grid[(i, j, k)] = h.ints([n, n + 1000] if (i + j + k) % 3 else [])
                    n += 1
    found = sorted(int(i) for i in find_nearby_polygons(x, y, z, grid))
    exp = set()
    for key, nums in grid.items():
        if abs(key[0] - x) <= 1 and abs(key[1] - y) <= 1 and abs(key[2] - z) <= 1:
            exp |= set(int(i) for i in nums)
    h.check(found == sorted(exp), "exactly the polygons of the cell and its neighbours")


def outside(axis, sign, step):
    """A polygon beyond the gridded region is an error."""
    def fn(h):
        lo, hi = (0.0, 0.0, 0.0), (2.0, 1.5, 1.0)
        t = [0.25, 0.125, 0.25]
        d = h.real("d", 3 * step, 8 * step)
        t[axis] = hi[axis] + d if sign > 0 else lo[axis] - d - 2.5
        polys = [moved("tri", (0, 0.25, 0.5)), moved("slope", t)]
        e = raises(lambda: grid_of(h, polys, step, lo, hi), ValueError)
        h.check(e is not None, "a polygon outside the region is reported")
    return fn


def cases(tier):
    b = "positions of one polygon within a 2 m range, all points of the polygons, all positions in the box"
    cs = []
    quick = [("cells", ("tri",), "x", 1.0), ("cells", ("wall",), "y", 0.5),
             ("cells", ("slope",), "z", 1.0), ("cells", ("ell", "tri"), "y", 1.0),
             ("cells", ("thin",), "xy", 0.5), ("cells", ("thin", "tri"), "x", 1.0),
             ("near", ("tri",), "x", 1.0), ("near", ("slope",), "z", 1.0), ("near", ("thin",), "y", 0.5),
             ("near", ("thin", "tri"), "x", 1.0), ("near", ("wall",), "x", 1.0)]
    deep = [("cells", ("tri",), "xyz", 1.0), ("cells", ("thin", "wall"), "x", 0.5),
            ("cells", ("slope", "thin"), "xz", 1.0), ("cells", ("wall",), "y", 0.25),
            ("near", ("thin", "wall"), "x", 0.5), ("near", ("wall",), "y", 0.5),
            ("near", ("ell", "tri"), "y", 1.0), ("near", ("thin",), "xyz", 1.0)]
    for what, sh, fr, st in quick + (deep if tier == "thorough" else []):
        cs.append(Case(f"{what}-{'+'.join(sh)}-{fr}-{st}", case(sh, fr, st, what), b))
    cs.append(Case("nearby", nearby, "125 cells x 4 patterns of missing cells"))
    for ax in range(3):
        for sg in (1, -1):
            cs.append(Case(f"outside-{'xyz'[ax]}{'+' if sg > 0 else '-'}", outside(ax, sg, 0.5),
                           "3 to 8 cells beyond the region"))
    return cs
