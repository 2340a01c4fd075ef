"""Visibility between points."""
import building3d.geom.points.visibility as vis
from building3d.geom.points.visibility import visibility_matrix

from props.common import PLANES, side
from symex.ctx import AND, NOT, OR, Case

ASSUMPTIONS = ["configurations within 1e-2 of touching or of being parallel without being so are"
               " outside the bounds"]


def emb(plane, u, v):
    o, a, b = PLANES[plane]
    return [o[k] + u * a[k] + v * b[k] for k in range(3)]


def clear(h, x):
    h.assume(OR(x == 0, x > 1e-2, x < -1e-2))


def same(p, q):
    return AND(p[0] == q[0], p[1] == q[1])


def meets(A, B, C, D):
    """Segments A-B and C-D share a single point (not parallel)."""
    s1, s2, s3, s4 = side(A, B, C), side(A, B, D), side(C, D, A), side(C, D, B)
    return AND(NOT(s1 - s2 == 0), OR(AND(s1 >= 0, s2 <= 0), AND(s1 <= 0, s2 >= 0)),
               OR(AND(s3 >= 0, s4 <= 0), AND(s3 <= 0, s4 >= 0)))


def blocks(p, q, e):
    C, D = e
    return AND(meets(p, q, C, D), NOT(OR(same(C, p), same(C, q), same(D, p), same(D, q))))


def guard(h, p, q, e):
    C, D = e
    for s in (side(p, q, C), side(p, q, D), side(C, D, p), side(C, D, q),
              side(p, q, C) - side(p, q, D)):
        clear(h, s)
    for a in (p, q):
        for b in (C, D):
            h.assume(OR(same(a, b), a[0] - b[0] > 1e-2, b[0] - a[0] > 1e-2, a[1] - b[1] > 1e-2,
                        b[1] - a[1] > 1e-2))


def arr(h, plane, edges):
    return h.array([[emb(plane, *a), emb(plane, *b)] for a, b in edges])


def run(plane, mk):
    """mk(h) -> (points, list of blocking sets) in plane coordinates."""
    def fn(h):
        pts, blk = mk(h)
        for i in range(len(pts)):
            for j in range(i):
                for s in blk:
                    for e in s:
                        guard(h, pts[i], pts[j], e)
        P = h.array([emb(plane, *p) for p in pts])
        args = [arr(h, plane, s) for s in blk]
        m = visibility_matrix(P, *args)
        n = len(pts)
        h.check(tuple(m.shape) == (n, n), "one row and column per point")
        for i in range(n):
            h.check(m[i, i] == 1, "a point sees itself")
            for j in range(i):
                h.check(m[i, j] == m[j, i], "visibility is symmetric")
                v = bool(m[i, j] == 1)
                h.check(OR(v, m[i, j] == 0), "entries are zero or one")
                b = OR(*[blocks(pts[i], pts[j], e) for s in blk for e in s])
                h.check(NOT(b) if v else b, "blocked iff an edge crosses the line of sight")
        one = getattr(vis, "are_points_visible", None)
        if one is not None:
            for i in range(n):
                for j in range(n):
                    if i != j:
                        h.check(one(P[i], P[j], *args) == m[i, j], "pairwise test agrees")
    return fn


def moving_edge(h):
    u, v = h.real("u", -4, 4), h.real("v", -4, 4)
    return [(0, 0), (3, 0)], [[((1, 2), (u, v))]]


def moving_point(h):
    u, v = h.real("u", -4, 4), h.real("v", -4, 4)
    return [(0, 0), (u, v)], [[((1, -1), (1, 1))]]


def moving_point2(h):
    u, v = h.real("u", -4, 4), h.real("v", -4, 4)
    return [(0, 0), (u, v)], [[((1, -1), (1, 1)), ((-2, -2), (2, -3))]]


def two_sets(h):
    u = h.real("u", -2, 4)
    w = h.pick("w", [0, 2, -1])
    return [(0, 0), (3, 0), (1, 2)], [[((u, -1), (u, 1))], [((w, 1), (w + 1, 1)), ((1, -2), (0, -2))]]


def three_points(h):
    u = h.real("u", -3, 5)
    es = [((1, 1), (3, 1)), ((0, 0), (0, 1)), ((-1, -1), (2, 0))]
    k = h.int("first", 0, 2)  # edges at the points come before or after the blocking one
    return [(0, 0), (2, 0), (u, 2)], [es[k:] + es[:k]]


def no_sets(h):
    u, v = h.real("u", -4, 4), h.real("v", -4, 4)
    return [(0, 0), (u, v), (1, 1)], []


def cases(tier):
    cs = []
    pl = {"quick": ["xy", "tilt"]}.get(tier, ["xy", "tilt", "zx", "skew"])
    for n, f in (("edge", moving_edge), ("point", moving_point), ("sets", two_sets),
                 ("three", three_points), ("none", no_sets)):
        for p in (pl if n in ("three", "sets") else pl[:1] if tier == "quick" else pl):
            cs.append(Case(f"{n}-{p}", run(p, f), "positions in [-4,4] as listed in the harness"))
    if tier != "quick":
        cs.append(Case("point2-xy", run("xy", moving_point2), "u, v in [-4,4]"))
    return cs
