"""Points in solids and the solid containing a point."""
from building3d.geom.building import Building
from building3d.geom.building.find_location import find_location
from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.zone import Zone

from props.common import SHAPES, inside, outside, raises
from symex.ctx import AND, Case, NOT, OR

M = 1e-3
ASSUMPTIONS = [
    f"points are at least {M} away from the planes of the solid's polygons, or exactly on a polygon",
    "the solids are fixed (boxes, a triangular and an L-shaped prism); points are symbolic along one or two axes",
]
HEIGHT = 2
# extents of which no two agree
BOXES = {"tall": ((0.5, 1.5), (-0.75, 0.5), (2, 3.75)), "wide": ((-0.5, 3.5), (1.75, 3), (0.25, 1.25)),
         "deep": ((2.5, 3.25), (-0.5, 3.75), (-0.75, 1))}


def solid(kind):
    if kind == "box":
        return box(2, 2, 2, (0, 0, 0), "s")
    if kind in BOXES:
        (a, b), (c, d), (e, f) = BOXES[kind]
        return box(b - a, d - c, f - e, (a, c, e), "s")
    return floor_plan(SHAPES[kind], HEIGHT, name="s")


def point(h, free, base, lo=-1, hi=4):
    return [h.real("xyz"[k], lo, hi) if "xyz"[k] in free else base[k] for k in range(3)]


def clear(h, kind, p):
    """Assume p is not near the surface; return whether it is inside."""
    if kind in BOXES:
        ins = AND(*[AND(x > a + M, x < b - M) for x, (a, b) in zip(p, BOXES[kind])])
        out = OR(*[OR(x < a - M, x > b + M) for x, (a, b) in zip(p, BOXES[kind])])
        h.assume(OR(ins, out))
        return ins
    foot = "square" if kind == "box" else kind
    ins = AND(inside(foot, p, M), p[2] > M, p[2] < HEIGHT - M)
    out = OR(outside(foot, p, M), p[2] < -M, p[2] > HEIGHT + M)
    h.assume(OR(ins, out))
    return ins


def member(kind, free, base):
    def fn(h):
        s = solid(kind)
        p = point(h, free, base)
        ins = clear(h, kind, p)
        q = h.array(p)
        r = s.is_point_inside(q)
        h.check(ins if r else NOT(ins), "inside exactly when enclosed")
        h.check(not s.is_point_at_boundary(q), "not on the boundary")
    return fn


def surface(kind, which, free):
    """Points of one polygon (interior, edges and corners)."""
    def fn(h):
        s = solid(kind)
        u, v = (h.pick("end_" + k, (-1, 0, 1)) if k in free else h.pick(k, (0, 0.375, 1)) for k in "uv")
        u = h.real("u", M, 1 - M) if u < 0 else u
        v = h.real("v", M, 1 - M) if v < 0 else v
        pts = [p for w in s.children.values() for p in w.children.values()][which].pts
        # a parallelogram of the polygon's first corner, inside the polygon
        a, b, c = pts[0], pts[1], pts[-1]
        if len(pts) == 3:
            v = v * (1 - u)
        f = 1 / 3 if len(pts) > 4 else 1  # of the L shape
        p = [a[k] + u * (b[k] - a[k]) * f + v * (c[k] - a[k]) * f for k in range(3)]
        q = h.array(p)
        h.check(s.is_point_at_boundary(q), "points of the polygons are on the boundary")
        h.check(s.is_point_inside(q), "points of the polygons are inside")
    return fn


def located(free, base, suggest):
    """Two zones, three boxes (one pair touching)."""
    def fn(h):
        b = Building([Zone([box(1, 1, 1, (0, 0, 0), "s"), box(1, 1, 1, (1, 0, 0), "s1")], name="z"),
                      Zone([box(1, 1, 1, (2.5, 0, 0), "s")], name="z1")], name="b")
        where = {"b/z/s": (0, 1), "b/z/s1": (1, 2), "b/z1/s": (2.5, 3.5)}
        p = point(h, free, base, -0.5, 4)
        for x in (0, 1, 2, 2.5, 3.5):
            h.assume(OR(p[0] < x - M, p[0] > x + M))
        for k in (1, 2):
            for x in (0, 1):
                h.assume(OR(p[k] < x - M, p[k] > x + M))
        first = [h.pick(f"first{i}", tuple(where)) for i in range(suggest)]
        inn = {k: AND(p[0] > a, p[0] < c, p[1] > 0, p[1] < 1, p[2] > 0, p[2] < 1) for k, (a, c) in where.items()}
        got = []
        e = raises(lambda: got.append(find_location(h.array(p), b, *first)), RuntimeError)
        if e is not None:
            h.check(NOT(OR(*inn.values())), "a point of a solid is found")
        else:
            h.check(inn.get(got[0], False), "the solid contains the point")
    return fn


def shared(h):
    """On the common face of two solids: one of them, the suggested one first."""
    b = Building([Zone([box(1, 1, 1, (0, 0, 0), "s"), box(1, 1, 1, (1, 0, 0), "s1")], name="z")], name="b")
    y = h.pick("end", (-1, 0, 1))
    p = [1, h.real("y", M, 1 - M) if y < 0 else y, h.pick("z", (0, 0.25, 1))]
    first = h.pick("first", ("b/z/s", "b/z/s1", ""))
    got = find_location(h.array(p), b, *([first] if first else []))
    h.check(got == (first or "b/z/s") or (not first and got == "b/z/s1"), "a solid with the point, suggested first")


def bad(h):
    b = Building([Zone([box(1, 1, 1, (0, 0, 0), "s")], name="z")], name="b")
    p = [h.real("x", -1, 2), 0.5, 0.5]
    first = h.pick("first", ("b/z", "b", "b/z/s/floor", "b/z/t"))
    e = raises(lambda: find_location(h.array(p), b, first), TypeError, ValueError, KeyError)
    h.check(e is not None, "a suggestion that is not a solid is rejected")


def through_edge(us):
    def fn(h):
        """Points whose ray in the direction used first passes through an edge or a corner."""
        s = solid("box")
        t = h.real("t", 0.05, 3)
        u = h.pick("u", us)
        e = h.pick("edge", (0, 1, 2))
        c = h.pick("c", (0, 2))
        c2 = h.pick("c2", (0, 2))
        at = {0: (u, c, c2), 1: (c, u, c2), 2: (c, c2, u)}[e]
        d = [0.739, 0.239, 0.113]
        p = [at[k] - t * d[k] for k in range(3)]
        ins = clear(h, "box", p)
        r = s.is_point_inside(h.array(p))
        h.check(ins if r else NOT(ins), "inside exactly when enclosed")
    return fn


def cases(tier):
    cs = []
    ms = [("box", "x", (0, 0.5, 0.75)), ("box", "z", (0.5, 0.625, 0)),
          ("tri", "y", (1.25, 0, 0.5)), ("lshape", "x", (0, 0.5, 1.25)), ("lshape", "y", (0.375, 0, 0.5)),
          ("lshape", "x", (0, 2, 0.25)), ("tall", "z", (1, 0, 0)), ("wide", "x", (0, 2, 0.75)),
          ("deep", "y", (3, 0, 0.5)), ("tall", "x", (0, -0.25, 3)), ("wide", "y", (3, 0, 1)), ("deep", "z", (2.75, 3, 0))]
    if tier == "thorough":
        ms += [("box", "xy", (0, 0, 0.75)), ("lshape", "xz", (0, 0.5, 0)), ("tri", "xz", (0, 0.75, 0)),
               ("lshape", "z", (2, 2, 0)), ("ushape", "x", (0, 2, 0.5)), ("arrow", "y", (1.5, 0, 0.5))]
    for k, free, base in ms:
        nm = "".join("xyz"[i] if "xyz"[i] in free else f"[{base[i]}]" for i in range(3))
        cs.append(Case(f"inside-{k}-{nm}", member(k, free, base), "all points along the free axes, -1..4"))
    cs.append(Case("through-edge", through_edge((0.5,) if tier == "quick" else (0, 0.5, 2)),
                   "all points on the lines through points of the edges of a box"))
    for k, n in (("box", 6), ("tri", 5), ("lshape", 8)):
        for i in range(n):
            if tier == "quick" and k != "box" and i % 3:
                continue
            cs.append(Case(f"surface-{k}-{i}", surface(k, i, "u" if tier == "quick" else "uv"),
                           "all points along lines of a polygon"))
    for nm, free, base, n in [("x", "x", (0, 0.25, 0.375), 1), ("y", "y", (2.75, 0, 0.375), 2 if tier == "thorough" else 1)]:
        cs.append(Case("located-" + nm, located(free, base, n), "all points along a line, all suggestions"))
    cs += [Case("shared", shared, "all points along lines of the common face"),
           Case("bad", bad, "all points along a line")]
    return cs
