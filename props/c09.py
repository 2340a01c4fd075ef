"""Facing, crossing and touching polygons."""
from building3d.geom.polygon import Polygon

from props.common import at, edges2, embed, rot, side
from symex.ctx import AND, NOT, OR, Case

M = 0.01
ASSUMPTIONS = [
    f"outlines either meet exactly as stated by the case or are at least {M} apart; the overlap"
    f" is at least {M} wide",
]
SQ = [(0, 0), (2, 0), (2, 2), (0, 2)]
BAR = [(0, 0), (1, 0), (1, 4), (0, 4)]
SMALL = [(0, 0), (1, 0), (1, 1), (0, 1)]
THIN = [(0, 0), (8, 0), (8, 0.125), (0, 0.125)]
TRI = [(0, 0), (3, 0), (1, 2)]
DIA = [(1, 0), (2, 1), (1, 2), (0, 1)]
COL = [(0, 0), (1, 0), (3, 0), (3, 2), (0, 2)]
LSH = [(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)]
SHAPE = {"sq": SQ, "bar": BAR, "small": SMALL, "thin": THIN, "tri": TRI, "dia": DIA, "col": COL,
         "lsh": LSH}
# convex parts covering the shape
PARTS = {k: [v] for k, v in SHAPE.items()}
PARTS["lsh"] = [[(0, 0), (3, 0), (3, 1), (0, 1)], [(0, 0), (1, 0), (1, 3), (0, 3)]]
PARTS["col"] = [[(0, 0), (3, 0), (3, 2), (0, 2)]]


def length(a, b):
    return ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5


def moved(pts, u, v):
    return [(x + u, y + v) for x, y in pts]


def apart(a, b, m=0):
    """The convex polygons are separated by more than m along the normal of an edge."""
    out = []
    for p, q in ((a, b), (b, a)):
        for e in edges2(p):
            ln = ((float(e[1][0] - e[0][0])) ** 2 + float(e[1][1] - e[0][1]) ** 2) ** 0.5 \
                if not hasattr(e[1][0] - e[0][0], "expr") else 1
            out.append(AND(*[side(e[0], e[1], x) < -m * ln for x in q]))
    return OR(*out)


def overlap(a, b, m=0):
    """The convex polygons overlap by more than m along the normals of all edges."""
    out = []
    for p, q in ((a, b), (b, a)):
        for e in edges2(p):
            out.append(OR(*[side(e[0], e[1], x) > m * 8 for x in q]))
    return AND(*out)


def within(a, b, m=0):
    """a lies inside the convex polygon b, more than m away from its edges."""
    return AND(*[side(e[0], e[1], x) > m * 8 for e in edges2(b) for x in a])


def relations(h, p, q, crossing, touching, facing, what):
    for a, b, o in ((p, q, ""), (q, p, " (swapped)")):
        h.check(bool(a.is_crossing_polygon(b)) == crossing,
                f"{what}: {'' if crossing else 'not '}crossing{o}")
        h.check(bool(a.is_touching_polygon(b)) == touching,
                f"{what}: {'' if touching else 'not '}touching{o}")
        h.check(bool(a.is_facing_polygon(b)) == facing,
                f"{what}: {'' if facing else 'not '}facing{o}")


def poly(h, plane, pts, flip=False, shift=0, name="p"):
    pts = rot(pts, shift)
    if flip:
        pts = pts[::-1]
    return Polygon(h.array(embed(plane, pts)), name=name)


def slide(a, b, plane, us, vs, what, flip=False, shift=0, meet=None):
    """Shape b moved by (u, v) relative to shape a; what: cross, out, in or touch."""
    def fn(h):
        u = h.real("u", *us) if isinstance(us, tuple) else us
        v = h.real("v", *vs) if isinstance(vs, tuple) else vs
        A, B = PARTS[a], [moved(p, u, v) for p in PARTS[b]]
        if what == "cross":
            h.assume(OR(*[overlap(x, y, M) for x in A for y in B]))
            if len(A) == len(B) == 1:
                h.assume(NOT(OR(within(A[0], B[0], -M), within(B[0], A[0], -M))))
        elif what == "out":
            h.assume(AND(*[apart(x, y, M) for x in A for y in B]))
        elif what == "in":
            h.assume(OR(*[within(B[0], x, M) for x in A]))
        P = poly(h, plane, SHAPE[a], name="a")
        Q = poly(h, plane, moved(SHAPE[b], u, v), flip, shift, name="b")
        relations(h, P, Q, what in ("cross", "meet"), what == "touch", False,
                  {"cross": "overlapping polygons whose outlines cross", "out": "polygons apart",
                   "meet": "overlapping polygons whose outlines meet",
                   "in": "one polygon inside the other, outlines apart",
                   "touch": "polygons with common boundary points only"}[what])
    return fn


def faces(shape, plane, kind):
    """Polygons with the same vertices, and nearly so."""
    def fn(h):
        pts = SHAPE[shape]
        n = len(pts)
        k = h.pick("k", range(n))
        P = poly(h, plane, pts, name="a")
        if kind == "same":
            Q = Polygon(h.array(rot(embed(plane, pts), int(k))), vn=P.vn)
            relations(h, P, Q, False, False, False, "the same polygon twice")
        elif kind == "opposite":
            Q = Polygon(h.array(rot(embed(plane, pts)[::-1], int(k))), vn=-P.vn)
            relations(h, P, Q, False, False, True, "same vertices, opposite normals")
        elif kind == "off":
            d = h.real("d", 0.01, 0.5)
            axis = h.pick("axis", range(2))
            sg = h.pick("sg", (-1, 1))
            new = [list(p) for p in pts]
            new[int(k)][int(axis)] = new[int(k)][int(axis)] + sg * d
            Q = Polygon(h.array(embed(plane, new)[::-1]), vn=-P.vn)
            for a, b in ((P, Q), (Q, P)):
                h.check(NOT(bool(a.is_facing_polygon(b))), "one vertex differs: not facing")
        elif kind == "shifted":
            w = h.real("w", 0.01, 2)
            for s in (w, -w):
                q = [at(plane, x, y, s) for x, y in pts]
                Q = Polygon(h.array(q[::-1]), vn=-P.vn)
                relations(h, P, Q, False, False, False, "polygons in parallel planes")
        else:
            extra = list(pts)
            a, b = pts[k], pts[(k + 1) % n]
            s = h.real("s", 0.1, 0.9)
            extra.insert(int(k) + 1, (a[0] + (b[0] - a[0]) * s, a[1] + (b[1] - a[1]) * s))
            Q = Polygon(h.array(embed(plane, extra)[::-1]), vn=-P.vn)
            for a, b in ((P, Q), (Q, P)):
                h.check(NOT(bool(a.is_facing_polygon(b))), "an additional vertex: not facing")
    return fn


def perpendicular(kind):
    """Polygons in perpendicular planes are never crossing or facing."""
    def fn(h):
        s = h.real("s", -1.9, 1.9)
        h.assume(OR(s < -M, s > M))
        P = Polygon(h.array([[0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0]]), name="a")
        if kind == "edge":  # walls sharing a part of an edge
            q, touch = [[s, 0, 0], [s + 2, 0, 0], [s + 2, 0, 2], [s, 0, 2]], True
        elif kind == "through":
            q, touch = [[0.5, 1, s - 2], [1.5, 1, s - 2], [1.5, 1, s + 2], [0.5, 1, s + 2]], None
        elif kind == "standing":  # one edge across the other polygon
            q, touch = [[0.75 + s / 4, 1, 0], [1.25 + s / 4, 1, 0], [1.25 + s / 4, 1, 2], [0.75 + s / 4, 1, 2]], None
        elif kind == "leaving":  # one edge from the outline of the other polygon inwards
            q, touch = [[0, 1, 0], [1 + s / 4, 1, 0], [1 + s / 4, 1, 2], [0, 1, 2]], None
        else:
            q, touch = [[s, -1, 0], [s + 2, -1, 0], [s + 2, -1, 2], [s, -1, 2]], False
        Q = Polygon(h.array(q), name="b")
        for a, b in ((P, Q), (Q, P)):
            h.check(NOT(bool(a.is_crossing_polygon(b))), "different planes: not crossing")
            h.check(NOT(bool(a.is_facing_polygon(b))), "different planes: not facing")
            if touch is not None:
                h.check(bool(a.is_touching_polygon(b)) == touch, "touching at the common edge")
    return fn


def reordered(h):
    """The same vertices joined to a different outline of the same area."""
    d = h.real("d", 0.01, 0.4)
    a = [(0, 0), (4, 0), (4, 4), (0, 4), (1 + d, 2), (1, 1)]
    b = [(0, 0), (4, 0), (4, 4), (0, 4), (1, 1), (1 + d, 2)]
    P = Polygon(h.array(embed("xy", a)))
    Q = Polygon(h.array(embed("xy", b)[::-1]), vn=-P.vn)
    h.check(NOT(P.is_facing_polygon(Q)), "different outline: not facing")
    h.check(NOT(Q.is_facing_polygon(P)), "different outline: not facing (swapped)")


def cases(tier):
    q = [("sq", "sq", "xy", (0.01, 1.9), 0.5, "cross"),
         ("sq", "sq", "xy", 1.5, (-1.9, -0.01), "cross", True, 1),
         ("sq", "bar", "xy", (-0.9, -0.01), -1, "cross"), ("sq", "bar", "xy", (1.01, 1.9), -1, "cross"),
         ("sq", "thin", "yz", -3, (0.05, 1.8), "cross"),
         ("thin", "thin", "xy", (0.01, 7.9), 0.0625, "cross", True),
         ("sq", "dia", "xy", (-0.4, -0.1), 0.5, "cross"),
         ("tri", "sq", "skew", (-0.75, -0.5), -1, "cross"),
         ("lsh", "small", "xy", (0.2, 0.9), 0.25, "cross"),
         ("lsh", "small", "xy", 0.25, (2.1, 2.8), "cross"),
         ("sq", "sq", "xy", (-3, 3), (-3, 3), "out"),
         ("sq", "dia", "xy", (-3, 3), 1.5, "out"),
         ("lsh", "small", "xy", (1.02, 3), 1.25, "out"),
         ("sq", "small", "xy", (0.01, 0.99), (0.01, 0.99), "in"),
         ("lsh", "small", "xy", 1, 0.25, "meet"),
         ("sq", "small", "xy", 1, (0.01, 0.99), "meet"),
         ("sq", "small", "xy", 0, 0, "meet"), ("sq", "small", "xy", (0.01, 0.99), 0, "meet", True),
         ("sq", "bar", "xy", (0.01, 0.99), 0, "meet"), ("sq", "sq", "xy", 0, (0.01, 1.9), "meet"),
         ("sq", "sq", "xy", 2, (0.01, 1.9), "touch"), ("sq", "sq", "xy", 2, 2, "touch"),
         ("sq", "sq", "skew", -2, 0, "touch", True, 2), ("sq", "dia", "xy", 2, (-0.9, 0.9), "touch"),
         ("lsh", "small", "xy", 1, 1, "touch"), ("lsh", "small", "xy", (1.01, 1.9), 1, "touch"),
         ("lsh", "small", "xy", 1, (1.01, 1.9), "touch", True),
         ("tri", "bar", "xy", (0.01, 1.9), -4, "touch"), ("lsh", "sq", "xy", 1, 1, "touch"),
         ("lsh", "sq", "skew", 1, 1, "touch", True, 2),
         ("thin", "sq", "xy", (0.01, 5.9), 0.125, "touch"),
         ]
    if tier != "quick":
        q += [("sq", "sq", "xy", (-1.9, -0.01), 0.5, "cross"),
              ("sq", "dia", "xy", (-1.9, -0.01), 0.5, "cross"),
              ("tri", "sq", "skew", (-1.5, -0.01), -1, "cross"),
              ("lsh", "small", "xy", (1.02, 3), (1.02, 3), "out"),
              ("sq", "sq", "xy", 1.5, (0.01, 1.9), "cross", False, 3),
              ("sq", "sq", "xy", (0.01, 1.9), (0.01, 1.9), "cross"),
              ("sq", "sq", "xy", (-1.9, -0.01), (0.01, 1.9), "cross", True, 2),
              ("sq", "bar", "xy", (0.01, 0.99), -1, "cross", True, 1),
              ("sq", "dia", "xy", (0.01, 1.9), 0.5, "cross"),
              ("tri", "sq", "skew", (0.01, 0.9), -1, "cross"),
              ("tri", "sq", "xy", (1.01, 2.5), -1, "cross", True),
              ("tri", "dia", "tilt", (-1.5, 0.9), -0.5, "cross"),
              ("lsh", "small", "xy", (2.1, 2.8), 0.25, "cross"),
              ("lsh", "small", "yz", (0.2, 0.9), 0.25, "cross", True, 1),
              ("sq", "sq", "yz", 2, (-1.9, -0.01), "touch", True, 1),
              ("sq", "sq", "yz", (-1.9, -0.01), -2, "touch"),
              ("tri", "sq", "xy", (-3, 4), -2.5, "out"), ("tri", "dia", "xy", (-3, 4), (2.1, 4), "out"),
              ("dia", "small", "skew", (0.6, 0.7), (0.6, 0.7), "cross"),
              ("tri", "small", "xy", (0.9, 1.1), (0.1, 0.3), "in")]
    cs, seen = [], set()
    for a in q:
        nm = "-".join(str(x) if not isinstance(x, tuple) else "s" for x in a)
        while nm in seen:
            nm += "+"
        seen.add(nm)
        cs.append(Case("slide-" + nm, slide(*a), "offsets within the ranges of the case"))
    for kind in ("same", "opposite", "off", "shifted", "extra"):
        for sh, pl in (("sq", "xy"), ("tri", "skew"), ("lsh", "yz")):
            cs.append(Case(f"faces-{kind}-{sh}-{pl}", faces(sh, pl, kind),
                           "any starting vertex; displacement in [0.01,2]"))
    cs += [Case(f"perp-{k}", perpendicular(k), "offset in [-1.9,1.9]")
           for k in ("edge", "through", "apart", "standing", "leaving")]
    cs.append(Case("reordered", reordered, "d in [0.01,0.4]"))
    return cs
