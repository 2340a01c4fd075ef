"""Distances to segments and polygons."""
from building3d.geom.points.distance import distance_point_to_edge
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.distance import distance_point_to_polygon

from props.common import SHAPES, at, embed, inside, outside, plane_normal, rot, seg_d2
from symex.ctx import AND, OR, Case, add, dot, scale, sub

M = 1e-3
ASSUMPTIONS = ["segments and polygons are taken from the listed ones, the point is symbolic",
               f"feet closer than {M} to the polygon's boundary are outside the bounds"]
TOL = 1e-6


def is_sqrt(h, r, d2, msg):
    """r >= 0 and r*r == d2 up to rounding."""
    h.check(r >= 0, msg + ": not negative")
    h.check(AND(r * r - d2 <= TOL, r * r - d2 >= -TOL), msg)


def edge(a, b):
    def fn(h):
        p = h.reals("p", 3, -10, 10)
        r = distance_point_to_edge(h.array(p), h.array(a), h.array(b))
        for c, v in seg_d2(p, a, b):
            if bool(c):
                is_sqrt(h, r, v, "distance to the segment")
                break
        s = h.real("s", 0, 1)
        q = sub(p, add(a, scale(sub(b, a), s)))
        h.check(r * r <= dot(q, q) + TOL, "no point of the segment is nearer")
    return fn


def edge_swap(a, b):
    def fn(h):
        p = h.reals("p", 3, -10, 10)
        r1 = distance_point_to_edge(h.array(p), h.array(a), h.array(b))
        r2 = distance_point_to_edge(h.array(p), h.array(b), h.array(a))
        h.close(r1 * r1, r2 * r2, TOL, "order of the end points does not matter")
    return fn


def edge_sym(k):
    """Segment along axis k with symbolic ends."""
    def fn(h):
        x1, x2 = h.real("x1", -10, 10), h.real("x2", -10, 10)
        h.assume(OR(x2 - x1 > 1e-3, x1 - x2 > 1e-3))
        px, py = h.real("px", -10, 10), h.real("py", -10, 10)
        a, b, p = [1.0, 1.0, 1.0], [1.0, 1.0, 1.0], [1.0, 1.0, 1.0]
        a[k], b[k], p[k], p[(k + 1) % 3] = x1, x2, px, py
        r = distance_point_to_edge(h.array(p), h.array(a), h.array(b))
        lo, hi = (x1, x2) if bool(x1 <= x2) else (x2, x1)
        dx = lo - px if bool(px < lo) else (px - hi if bool(px > hi) else 0)
        is_sqrt(h, r, dx * dx + (py - 1) * (py - 1), "distance to the segment")
    return fn


def polygon(shape, plane, shift, flip, rng):
    def fn(h):
        uv = rot(SHAPES[shape], shift)
        if flip:
            uv = uv[::-1]
        pts = embed(plane, uv)
        poly = Polygon(h.array(pts), name="p")
        (u0, u1), (v0, v1), (w0, w1) = rng
        u = h.real("u", u0, u1)
        v = h.real("v", v0, v1)
        w = w0 if w0 == w1 else h.real("w", w0, w1)
        ins, out = inside(shape, (u, v), M), outside(shape, (u, v), M)
        h.assume(OR(ins, out))
        p = at(plane, u, v, w)
        r = distance_point_to_polygon(h.array(p), poly.pts, poly.tri, poly.vn)
        n = plane_normal(plane)
        if bool(ins):
            is_sqrt(h, r, w * w * dot(n, n), "perpendicular distance")
        else:
            h.check(r >= 0, "not negative")
            alt = []
            for i in range(len(pts)):
                cv = seg_d2(p, pts[i - 1], pts[i])
                h.check(OR(*[AND(c, r * r <= d + TOL) for c, d in cv]),
                        "no edge is nearer than the distance")
                alt += [AND(c, r * r >= d - TOL) for c, d in cv]
            h.check(OR(*alt), "distance to some edge")
    return fn


def cases(tier):
    segs = [([0.0, 0, 0], [2.0, 0, 0]), ([1.0, -1, 0.5], [1.0, 2, 0.5]),
            ([0.0, 0, 0], [1.0, 2, -2])]
    cs = []
    for i, (a, b) in enumerate(segs):
        cs.append(Case(f"edge-{i}", edge(a, b), f"segment {a}-{b}, point in [-10,10]^3"))
        cs.append(Case(f"swap-{i}", edge_swap(a, b), f"segment {a}-{b}, point in [-10,10]^3"))
    cs += [Case(f"axis-{k}", edge_sym(k), "axis-parallel segment, all lengths, all points")
           for k in range(3)]
    polys = [("square", "xy", 0, False, ((-5, 5), (-5, 5), (2, 2))),
             ("square", "zx", 1, True, ((0.5, 0.5), (-5, 5), (-5, 5))),
             ("lshape", "xy", 0, True, ((-2, 5), (2, 2), (-3, 3))),
             ("tri", "tilt", 0, False, ((1, 1), (-3, 5), (-3, 3))),
             ("square", "tilt", 1, True, ((-3, 5), (1, 1), (-3, 3))),
             ("tri", "skew", 0, False, ((-3, 5), (0.5, 0.5), (1.5, 1.5))),
             ("tri", "skew", 2, True, ((1, 1), (-3, 5), (-2, -2)))]
    if tier != "quick":
        polys += [("tri", "skew", 0, False, ((-3, 5), (0.5, 0.5), (-2, 2))),
                  ("tri", "skew", 2, True, ((1, 1), (-3, 5), (-2, 2))),
                  ("square", "xy", 0, False, ((-5, 5), (-5, 5), (-5, 5))),
                  ("square", "yz", 2, True, ((-5, 5), (-5, 5), (-1, -1))),
                  ("lshape", "xy", 0, False, ((-5, 5), (-5, 5), (1, 1))),
                  ("lshape", "tilt", 1, False, ((1.5, 1.5), (-5, 5), (-2, 2))),
                  ("ushape", "xy", 0, False, ((-1, 4), (2, 2), (-2, 2))),
                  ("arrow", "yz", 2, True, ((-1, 5), (-1, 3), (-0.5, -0.5)))]
    cs += [Case(f"polygon-{s}-{p}-{k}-{f}-{i}", polygon(s, p, k, f, r), f"uvw in {r}")
           for i, (s, p, k, f, r) in enumerate(polys)]
    return cs
