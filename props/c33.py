"""Segments crossing polygons and polygons crossing cubes."""
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.crossing import is_line_segment_crossing_polygon
from building3d.geom.polygon.crossing import is_polygon_crossing_cube

from props.common import SHAPES, at, inside, outside, points3
from symex.ctx import AND, OR, Case, cross, dot

M = 0.01
ASSUMPTIONS = [
    f"segments: the crossing point is on the outline, or at least {M} away from it; the ends are in"
    f" the plane of the polygon or at least {M} away from it",
    f"cubes: the polygon and the cube overlap or are apart by at least {M} along every separating"
    " direction (the code widens the cube by 0.001)",
]


def make(h, plane, shape):
    p = Polygon(h.array(points3(shape, plane)), name="p")
    return p.pts, p.tri


def both(h, a, b, pts, tri, want, what):
    for x, y, o in ((a, b, ""), (b, a, " (reversed)")):
        r = bool(is_line_segment_crossing_polygon(h.array(x), h.array(y), pts, tri))
        h.check(r == want, what + o)


def through(shape, plane, w1, w2, start, want, known=()):
    """Segment from a point above to a point below; the crossing point is (u, v)."""
    def fn(h):
        u = h.real("u", -1, 4)
        v = h.real("v", -1, 4) if "v" not in known else known["v"]
        h.assume(inside(shape, (u, v), M) if want else outside(shape, (u, v), M))
        # the end point such that the segment passes through (u, v, 0)
        s = w1 / (w1 - w2)
        end = [start[k] + ((u, v)[k] - start[k]) * (1 / s) for k in range(2)]
        pts, tri = make(h, plane, shape)
        both(h, at(plane, *start, w1), at(plane, *end, w2), pts, tri, want,
             "crossing" if want else "passing by")
    return fn


def oneside(shape, plane):
    """Both ends on the same side of the plane, or the segment parallel to it."""
    def fn(h):
        a, b = h.real("a", -3, 3), h.real("b", -3, 3)
        h.assume(OR(AND(a > M, b > M), AND(a < -M, b < -M)))
        pts, tri = make(h, plane, shape)
        both(h, at(plane, 0.5, 0.5, a), at(plane, 0.75, 0.25, b), pts, tri, False,
             "does not reach the plane")
    return fn


def onplane(shape, plane, kind):
    def fn(h):
        w = h.real("w", -3, 3)
        h.assume(OR(w > M, w < -M))
        pts, tri = make(h, plane, shape)
        a, want = {"end": ((0.5, 0.5), True), "corner": ((0, 0), True), "edge": ((0, 1), True),
                   "miss": ((-0.5, 0.5), False)}[kind]
        both(h, at(plane, *a, 0), at(plane, 1.25, 0.5, w), pts, tri, want,
             "the segment ends on the polygon" if want else "the segment ends beside the polygon")
    return fn


def boundary(shape, plane, i):
    """The segment passes through a point of an edge."""
    def fn(h):
        t = h.real("t", 0.01, 0.99)
        uv = SHAPES[shape]
        a, b = uv[i], uv[(i + 1) % len(uv)]
        p = (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)
        pts, tri = make(h, plane, shape)
        both(h, at(plane, p[0] - 1, p[1] + 0.5, 1), at(plane, p[0] + 1, p[1] - 0.5, -1), pts, tri,
             True, "the segment meets the outline")
    return fn


def flat(h):
    """Parallel segments meet the plane nowhere or in more than one point."""
    u, w = h.real("u", -3, 3), h.real("w", -1, 1)
    pts, tri = make(h, "xy", "square")
    both(h, [u, 0.5, w], [u + 2, 1.5, w], pts, tri, False, "parallel to the plane")


POLYS = {
    "tri": [(0, 0, 0), (3, 0, 1), (0, 2, 1)],
    "small": [(0, 0, 0), (0.5, 0, 0.25), (0.25, 0.5, 0)],
    "rect": [(0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 0)],
    "vert": [(0, 0, 0), (2, 2, 0), (2, 2, 3), (0, 0, 3)],
    "strip": [(0, 0, 0), (4, 0, 2), (4, 0.5, 2), (0, 0.5, 0)],
    "diag": [(0, 0, 0), (3, 3, 3), (3, 3.5, 3.5), (0, 0.5, 0.5)],
}


def separation(edges, pts, lo, hi, m=M):
    """(apart, overlapping) by separating directions of a convex polygon and a box."""
    axes = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    nr = cross(edges[0], edges[1])
    axes.append(tuple(nr))
    axes += [tuple(cross(e, a)) for e in edges for a in axes[:3]]
    apart, over, seen = [], [], []
    for a in axes:
        ln = sum(x * x for x in a) ** 0.5
        if ln < 1e-9:
            continue
        b = [x / ln for x in a]
        if any(abs(abs(dot(b, c)) - 1) < 1e-9 for c in seen):
            continue
        seen.append(b)
        bl = sum(min(a[k] * lo[k], a[k] * hi[k]) for k in range(3))
        bh = sum(max(a[k] * lo[k], a[k] * hi[k]) for k in range(3))
        pr = [dot(a, p) for p in pts]
        apart.append(OR(AND(*[x > bh + m * ln for x in pr]), AND(*[x < bl - m * ln for x in pr])))
        over.append(AND(OR(*[x < bh - m * ln for x in pr]), OR(*[x > bl + m * ln for x in pr])))
    return OR(*apart), AND(*over)


def cube(which, box, move, want):
    def fn(h):
        lo, hi = box
        off = [h.real("xyz"[k], *m) if isinstance(m, tuple) else m for k, m in enumerate(move)]
        pts = [tuple(p[k] + off[k] for k in range(3)) for p in POLYS[which]]
        conc = POLYS[which]
        n = len(conc)
        edges = [[conc[(i + 1) % n][k] - conc[i][k] for k in range(3)] for i in range(n)]
        ap, ov = separation(edges, pts, lo, hi)
        h.assume(ov if want else ap)
        p = Polygon(h.array(pts), name="p")
        r = bool(is_polygon_crossing_cube(p.pts, p.tri, lo, hi))
        h.check(r == want, "common points with the cube" if want else "no common point")
    return fn


UNIT = ((0, 0, 0), (1, 1, 1))
OFFC = ((-3, 2, 1), (-1, 3, 2.5))


def cases(tier):
    cs = []
    q = [("square", "xy", 1, -1, (0.5, 0.5), True), ("square", "xy", 1, -1, (0.5, 0.5), False),
         ("tri", "skew", -1, 0.5, (2, 1), True), ("tri", "skew", -1, 0.5, (2, 1), False),
         ("lshape", "yz", 2, -1, (2.5, 2.5), True), ("lshape", "yz", 2, -1, (2.5, 2.5), False)]
    if tier != "quick":
        q += [(s, p, w, -1, (0.25, 0.5), t) for s in ("square", "tri", "lshape", "arrow", "ushape")
              for p, w in (("zx", 2), ("tilt", 1)) for t in (True, False)]
    for a in q:
        fix = {"v": 0.5} if a[0] in ("ushape", "arrow") or a[1] in ("skew", "tilt") else {}
        cs.append(Case("through-" + "-".join(str(x) for x in a[:4] + a[5:]), through(*a, fix),
                       "crossing point in [-1,4]^2"))
    for s, p in (("square", "xy"), ("tri", "skew"))[:2]:
        cs.append(Case(f"oneside-{s}-{p}", oneside(s, p), "heights in [-3,3]"))
        for k in ("end", "corner", "miss") + (("edge",) if s == "square" else ()):
            cs.append(Case(f"ends-{s}-{p}-{k}", onplane(s, p, k), "height in [-3,3]"))
        for i in range(len(SHAPES[s])):
            cs.append(Case(f"outline-{s}-{p}-{i}", boundary(s, p, i), "position on the edge"))
    cs.append(Case("parallel", flat, "offsets in [-3,3]"))
    c = []
    S, T = (-4, 4), (-3, 1)
    for which, mv in (("tri", (S, -0.5, -0.25)), ("tri", (-1, S, -0.25)), ("tri", (-0.5, -0.5, S)),
                      ("small", (S, 0.25, 0.25)), ("rect", (S, -1, 0.5)), ("rect", (-1, -1, S)),
                      ("vert", (S, -0.5, -1)), ("vert", (-0.5, -0.5, S)), ("strip", (-1, S, -0.5)),
                      ("strip", (-2, 0.25, S)), ("diag", (S, -1, -1)), ("diag", (-1, S, -1.5))):
        c.append((which, UNIT, mv))
    c.append(("rect", OFFC, (-4, 1, (0, 4))))
    c.append(("tri", OFFC, (-3.5, (0, 4), 1)))
    if tier != "quick":
        c += [("tri", UNIT, (S, S, -0.25)), ("small", UNIT, (S, S, S)), ("rect", UNIT, (S, S, 0.5)),
              ("strip", UNIT, (-2, S, S)), ("vert", UNIT, (S, S, -1)), ("diag", UNIT, (S, -1, S))]
    for i, (w, b, mv) in enumerate(c):
        for want in (True, False):
            cs.append(Case(f"cube-{w}-{i}-{want}", cube(w, b, mv, want), "offset in [-4,4]"))
    return cs
