"""Shapes, planes and exact-geometry oracles shared by the harnesses."""
from __future__ import annotations

from symex.ctx import AND, NOT, OR, dot, sub  # noqa: F401

# planes: (origin, e1, e2); e1/e2 are exact binary fractions, not necessarily orthonormal
PLANES = {
    "xy": ((0, 0, 0), (1, 0, 0), (0, 1, 0)),
    "yz": ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "zx": ((0, -2, 0), (0, 0, 1), (1, 0, 0)),
    "tilt": ((0, 0, 1), (1, 0, 0.5), (0, 1, 0)),
    "skew": ((1, 0, 2), (1, 0, 0.5), (0, 1, -1)),
}

# 2D shapes, counter-clockwise, first corner convex
TRI = [(0, 0), (3, 0), (1, 2)]
SQUARE = [(0, 0), (2, 0), (2, 2), (0, 2)]
LSHAPE = [(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)]
USHAPE = [(0, 0), (3, 0), (3, 3), (2, 3), (2, 1), (1, 1), (1, 3), (0, 3)]
ARROW = [(0, 0), (4, 1), (0, 2), (1, 1)]
COLLIN = [(0, 0), (1, 0), (3, 0), (3, 2), (0, 2)]
SHAPES = {"tri": TRI, "square": SQUARE, "lshape": LSHAPE, "ushape": USHAPE, "arrow": ARROW,
          "collin": COLLIN}


def embed(plane, uv):
    o, e1, e2 = PLANES[plane]
    return [[o[k] + u * e1[k] + v * e2[k] for k in range(3)] for u, v in uv]


def at(plane, u, v, w=0):
    """Point of the plane at (u, v), moved by w along the (unnormalised) normal."""
    o, e1, e2 = PLANES[plane]
    n = plane_normal(plane)
    return [o[k] + u * e1[k] + v * e2[k] + w * n[k] for k in range(3)]


def plane_normal(plane):
    _, a, b = PLANES[plane]
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def rot(lst, k):
    k %= len(lst)
    return list(lst[k:]) + list(lst[:k])


def edges2(poly):
    return [(poly[i], poly[(i + 1) % len(poly)]) for i in range(len(poly))]


def side(a, b, p):
    """>0 left of a->b."""
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def convex_in(poly, p, m=0):
    """p inside the convex ccw polygon, at least m away from every edge line."""
    cs = []
    for a, b in edges2(poly):
        ln = ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5
        cs.append(side(a, b, p) > m * ln)
    return AND(*cs)


def convex_out(poly, p, m=0):
    cs = []
    for a, b in edges2(poly):
        ln = ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5
        cs.append(side(a, b, p) < -m * ln)
    return OR(*cs)


# convex pieces of the shapes (overlapping pieces so that their interiors cover the interior)
PIECES = {
    "tri": [TRI], "square": [SQUARE],
    "lshape": [[(0, 0), (3, 0), (3, 1), (0, 1)], [(0, 0), (1, 0), (1, 3), (0, 3)]],
    "ushape": [[(0, 0), (3, 0), (3, 1), (0, 1)], [(0, 0), (1, 0), (1, 3), (0, 3)],
               [(2, 0), (3, 0), (3, 3), (2, 3)]],
    "arrow": [[(0, 0), (4, 1), (1, 1)], [(4, 1), (0, 2), (1, 1)],
              # the strip between the two halves
              [(1, 1), (2, 0.5), (4, 1), (2, 1.5)]],
    "collin": [[(0, 0), (3, 0), (3, 2), (0, 2)]],
}


def inside(shape, p, m=0):
    """Inside the shape and (for m > 0) clear of its boundary by m; sound for all pieces."""
    return OR(*[convex_in(q, p, m) for q in PIECES[shape]])


def outside(shape, p, m=0):
    return AND(*[convex_out(q, p, m) for q in PIECES[shape]])


def area2(poly):
    """Twice the signed shoelace area."""
    t = 0
    for a, b in edges2(poly):
        t = t + a[0] * b[1] - a[1] * b[0]
    return t


def raises(fn, *exc):
    """Exception raised by fn() among exc, or None."""
    try:
        fn()
    except exc as e:
        return e
    return None


def seg_d2(p, a, b):
    """Squared distance of p to the segment a-b as (condition, value) alternatives."""
    d = sub(b, a)
    l2 = dot(d, d)
    t = dot(d, sub(p, a))
    pa, pb = sub(p, a), sub(p, b)
    mid = dot(pa, pa) - t * t * (1 / l2)
    return [(t <= 0, dot(pa, pa)), (t >= l2, dot(pb, pb)), (AND(t > 0, t < l2), mid)]


def points3(shape, plane):
    return embed(plane, SHAPES[shape])
