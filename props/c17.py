"""Stitching adjacent solids."""
from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.solid.box import box
from building3d.geom.solid.stitch import stitch_solids
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from props.c15 import Rect
from symex.ctx import AND, Case, OR, near, truth

TOL = 1e-6
M = 0.0625
ASSUMPTIONS = [
    "solids are boxes, or stand-ins for them with the adjacent faces only (stitching looks at polygons);"
    f" coordinates of the two faces agree or differ by at least {M}",
    "one coordinate of the second solid is symbolic, the others are picked per arrangement",
]


def rect_solid(h, name, rects):
    return Solid([Wall([Polygon(h.array(r.pts()), name="p")], name=f"w{i}") for i, r in enumerate(rects)], name=name)


def polys(s):
    return [(w.name, p) for w in s.children.values() for p in w.children.values()]


def snapshot(s):
    return [(w, p.name, [[x for x in pt] for pt in p.pts]) for w, p in polys(s)]


def unchanged(a, b):
    if [x[:2] for x in a] != [x[:2] for x in b] or any(len(x[2]) != len(y[2]) for x, y in zip(a, b)):
        return False
    return AND(*[u == v for x, y in zip(a, b) for p, q in zip(x[2], y[2]) for u, v in zip(p, q)])


def span(a0, a1, b0, b1):
    """Length of the common part of two intervals."""
    lo = b0 if truth(b0 > a0) else a0
    hi = b1 if truth(b1 < a1) else a1
    return hi - lo if truth(hi > lo) else 0


def contact(p, q):
    return span(p.b[0], p.b[1], q.b[0], q.b[1]) * span(p.b[2], p.b[3], q.b[2], q.b[3])


def after(h, s1, s2, r1, r2, covered):
    """The faces are split into parts and the common area is covered by facing parts."""
    for s, rects in ((s1, r1), (s2, r2)):
        for i, r in enumerate(rects):
            parts = [p for w, p in polys(s) if w == f"w{i}"]
            size = (r.b[1] - r.b[0]) * (r.b[3] - r.b[2])
            h.check(near(sum(p.area for p in parts), size, TOL), "the area of the wall is kept")
            sign = 1 if r.up else -1
            h.check(AND(*[near(p.vn[k], (sign, 0, 0)[k], TOL) for p in parts for k in range(3)]),
                    "the normal of the wall is kept")
            h.check(AND(*[AND(near(x, r.x, TOL), y >= r.b[0] - TOL, y <= r.b[1] + TOL, z >= r.b[2] - TOL,
                              z <= r.b[3] + TOL) for p in parts for x, y, z in p.pts]), "the parts stay in the wall")
            for j, p in enumerate(parts):
                for q in parts[j + 1:]:
                    h.check(not p.is_crossing_polygon(q), "the parts do not overlap")
    total = 0
    for _, p in polys(s1):
        for _, q in polys(s2):
            if p.is_facing_polygon(q):
                total = total + p.area
            h.check(not p.is_crossing_polygon(q), "no crossing pair is left")
    h.check(near(total, covered, TOL), "the contact area is covered by facing pairs")


# name: (y0, y1, z0, z1) of the second face; the first one is the unit square. "t" is symbolic.
ARR = {
    "corner": lambda t: (t, t + 1, 0.5, 1.5),        # shifted both ways
    "side": lambda t: (t, t + 1, 0, 1),              # shifted one way
    "smaller": lambda t: (0, t, 0, 1),               # common edges
    "inside": lambda t: (t, 0.75, 0.25, 0.625),      # away from the edges
    "around": lambda t: (-1, 2, t, 1.5),             # the first face is inside the second
    "band": lambda t: (-0.5, 1.5, t, 0.75),          # across the whole face
    "notch": lambda t: (0.25, 0.75, t, 1),           # on one edge
    "comb": lambda t: (t, 0.75, -0.5, 1.25),
}
RANGE = {"corner": (M, 1 - M), "side": (M, 1 - M), "smaller": (M, 1 - M), "inside": (M, 0.6), "around": (-1, -M),
         "band": (M, 0.6), "notch": (M, 0.9), "comb": (M, 0.6)}


def faces(kind, swap, again, rng=None):
    def fn(h):
        t = h.real("t", *(rng or RANGE[kind]))
        a, b = Rect(1, 0, 1, 0, 1, True), Rect(1, *ARR[kind](t), False)
        far = Rect(0, 0, 1, 0, 1, False)
        s1, s2 = rect_solid(h, "s", [a, far]), rect_solid(h, "s1", [b])
        r1, r2 = [a, far], [b]
        if swap:
            s1, s2, r1, r2 = s2, s1, r2, r1
        stitch_solids(s1, s2)
        after(h, s1, s2, r1, r2, contact(a, b))
        if again:
            x, y = snapshot(s1), snapshot(s2)
            stitch_solids(s1, s2)
            h.check(AND(unchanged(x, snapshot(s1)), unchanged(y, snapshot(s2))), "stitched solids stay as they are")
    return fn


def separate(h):
    """Faces that only touch, are apart, or are in another plane."""
    kind = h.pick("kind", ("beside", "plane", "same"))
    t = h.real("t", M, 2)
    a = Rect(1, 0, 1, 0, 1, True)
    b = {"beside": Rect(1, 1 if h.flag("touch") else 1 + t, 2 + t, 0, 1, False) if kind == "beside" else None,
         "plane": Rect(1 + t, 0.5, 1.5, 0, 1, False), "same": Rect(1, 0, 1, 0, 1, False)}[kind]
    s1, s2 = rect_solid(h, "s", [a]), rect_solid(h, "s1", [b])
    x, y = snapshot(s1), snapshot(s2)
    if h.flag("swap"):
        s1, s2, x, y = s2, s1, y, x
    stitch_solids(s1, s2)
    h.check(AND(unchanged(x, snapshot(s1)), unchanged(y, snapshot(s2))), "solids without overlapping faces are kept")


def boxes(kind):
    def fn(h):
        t = h.real("t", *RANGE[kind])
        y0, y1, z0, z1 = ARR[kind](t)
        s1, s2 = box(1, 1, 1, (0, 0, 0), "s"), box(1, y1 - y0, z1 - z0, (1, y0, z0), "s1")
        v = [s1.volume, s2.volume]
        ar = [{w.name: sum(p.area for p in w.children.values()) for w in s.children.values()} for s in (s1, s2)]
        stitch_solids(s1, s2)
        for s, x, a in zip((s1, s2), v, ar):
            h.check(near(s.volume, x, 1e-5), "the volume is kept")
            h.check(AND(*[near(sum(p.area for p in s[w].children.values()), a[w], TOL) for w in a]),
                    "the area of each wall is kept")
        total = sum(p.area for _, p in polys(s1) for _, q in polys(s2) if p.is_facing_polygon(q))
        h.check(near(total, contact(Rect(1, 0, 1, 0, 1, True), Rect(1, y0, y1, z0, z1, False)), TOL),
                "the contact area is covered by facing pairs")
    return fn


def building(sym, befores):
    """All adjacent pairs of a building, whatever was asked before and however the solids are named."""
    def fn(h):
        t = h.real("t", M, 1 - M) if sym else h.pick("t", (0.25, 0.5))
        n2 = h.pick("name", ("s", "s1"))
        a, b = Rect(1, 0, 1, 0, 1, True), Rect(1, t, t + 1, 0, 1, False)
        c, d = Rect(5, 0, 1, 0, 1, True), Rect(5, 0, 1, 0.5, 1.5, False)
        z = [rect_solid(h, "s", [a]), rect_solid(h, "s1", [c])]
        z1 = [rect_solid(h, n2, [b]), rect_solid(h, "s1" if n2 == "s" else "s", [d])]
        bdg = Building([Zone(z, name="z"), Zone(z1, name="z1")], name="b")
        before = h.pick("before", befores)
        if before != "none":
            bdg.get_graph(facing=before == "facing", touching=before == "touching")
        bdg.stitch_solids()
        after(h, z[0], z1[0], [a], [b], 1 - t)
        after(h, z[1], z1[1], [c], [d], 0.5)
        g = bdg.get_graph(level="solid")
        h.check(set(g["b/z/s"]) == {"b/z1/" + n2}, "the graph of the stitched building")
    return fn


def cases(tier):
    th = tier == "thorough"
    cs = []
    for k in ARR:
        if th or k in ("smaller", "notch", "band", "side", "corner"):
            cs.append(Case("faces-" + k, faces(k, False, th or k == "smaller"), f"t in {RANGE[k]}"))
        if th:
            cs.append(Case("swap-" + k, faces(k, True, False), f"t in {RANGE[k]}"))
            if k in ("corner", "smaller", "band", "notch"):
                cs.append(Case("boxes-" + k, boxes(k), f"t in {RANGE[k]}"))
    cs += [Case("separate", separate, "all distances"), Case("boxes-side", boxes("side"), "all offsets of a box"),
           Case("building", building(th, ("none", "facing", "touching") if th else ("none", "facing")),
                "offsets of a pair of faces, names, graphs asked before")]
    if not th:
        cs.append(Case("faces-inside", faces("inside", False, False, (0.375, 0.4375)), "t in (0.375, 0.4375)"))
        cs.append(Case("faces-around", faces("around", False, False, (-0.5, -0.4375)), "t in (-0.5, -0.4375)"))
    return cs
