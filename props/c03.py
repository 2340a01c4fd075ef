"""Point-in-polygon membership."""
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.ispointinside import is_point_inside_margin

from props.common import SHAPES, at, edges2, embed, inside, outside, rot, side
from symex.ctx import AND, OR, Case

M = 1e-3
ASSUMPTIONS = [
    "the polygon is one of the listed shapes (its vertices are concrete), the point is symbolic",
    f"points closer than {M} to the boundary line or plane but not on it are not considered: the"
    " code's tolerances decide them",
]


def make(h, shape, plane, shift, flip):
    uv = rot(SHAPES[shape], shift)
    if flip:
        uv = uv[::-1]
    return Polygon(h.array(embed(plane, uv)), name="p")


def clear_of_diagonals(h, poly, uv_of, p):
    """p exactly on, or at least 1e-9 away from, the lines of the triangulation."""
    seen = set()
    for t in poly.tri:
        for i in range(3):
            e = frozenset((int(t[i]), int(t[(i + 1) % 3])))
            if e in seen:
                continue
            seen.add(e)
            a, b = (uv_of(poly.pts[k]) for k in sorted(e))
            s = side(a, b, p)
            h.assume(OR(s == 0, s > 1e-9, s < -1e-9))


def uv_finder(shape, plane):
    tab = list(zip(embed(plane, SHAPES[shape]), SHAPES[shape]))

    def f(pt):
        return min(tab, key=lambda r: sum((float(x) - y) ** 2 for x, y in zip(pt, r[0])))[1]
    return f


def member(shape, plane, shift, flip, rng=None):
    def fn(h):
        poly = make(h, shape, plane, shift, flip)
        (a, b), (c, d) = rng or ((-10, 10), (-10, 10))
        u, v = h.real("u", a, b), h.real("v", c, d)
        ins, out = inside(shape, (u, v), M), outside(shape, (u, v), M)
        h.assume(OR(ins, out))
        clear_of_diagonals(h, poly, uv_finder(shape, plane), (u, v))
        r = poly.is_point_inside(h.array(at(plane, u, v)))
        h.check(ins if r else out, "membership of a point clear of the boundary")
        r2 = poly.is_point_inside(h.array(at(plane, u, v)), boundary_in=False)
        h.check(bool(r2) == bool(r), "boundary flag matters only on the boundary")
    return fn


def offplane(shape, plane, shift, flip):
    def fn(h):
        poly = make(h, shape, plane, shift, flip)
        u, v, w = h.real("u", -5, 5), h.real("v", -5, 5), h.real("w", -10, 10)
        h.assume(OR(w > 1e-6, w < -1e-6))
        for b in (True, False):
            r = poly.is_point_inside(h.array(at(plane, u, v, w)), boundary_in=b)
            h.check(not r, "a point off the plane is not inside")
    return fn


def boundary(shape, plane, shift, flip):
    def fn(h):
        poly = make(h, shape, plane, shift, flip)
        es = edges2(SHAPES[shape])
        a, b = es[h.int("edge", 0, len(es) - 1)]
        t = h.real("t", 0, 1)
        # clear of the vertices (which the code compares with a relative tolerance) or on one
        h.assume(OR(t == 0, AND(t > M, t < 1 - M)))
        p = h.array(at(plane, a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t))
        h.check(poly.is_point_inside(p), "a boundary point is inside when included")
        h.check(not poly.is_point_inside(p, boundary_in=False),
                "a boundary point is not inside when excluded")
    return fn


def seg2(a, b, p):
    """Squared distance to a segment as (condition, value) pairs."""
    d = (b[0] - a[0], b[1] - a[1])
    l2 = d[0] ** 2 + d[1] ** 2
    t = d[0] * (p[0] - a[0]) + d[1] * (p[1] - a[1])
    cr = d[0] * (p[1] - a[1]) - d[1] * (p[0] - a[0])
    q = lambda c: (p[0] - c[0]) ** 2 + (p[1] - c[1]) ** 2  # noqa: E731
    return [(t <= 0, q(a)), (t >= l2, q(b)), (AND(t > 0, t < l2), cr * cr * (1 / l2))]


def away(shape, p, m):
    """Farther than m from every edge (xy plane)."""
    return AND(*[OR(*[AND(c, v > m * m) for c, v in seg2(a, b, p)])
                 for a, b in edges2(SHAPES[shape])])


def close(shape, p, m):
    return OR(*[OR(*[AND(c, v < m * m) for c, v in seg2(a, b, p)])
                for a, b in edges2(SHAPES[shape])])


def margin(shape, shift, flip, lo, hi, box):
    def fn(h):
        poly = make(h, shape, "xy", shift, flip)
        u, v = h.real("u", *box[0]), h.real("v", *box[1])
        m = lo if lo == hi else h.real("m", lo, hi)
        ins, out = inside(shape, (u, v), M), outside(shape, (u, v), M)
        far, near_ = away(shape, (u, v), m + M), close(shape, (u, v), m - M)
        h.assume(OR(out, AND(ins, OR(far, near_))))
        clear_of_diagonals(h, poly, uv_finder(shape, "xy"), (u, v))
        r = is_point_inside_margin(h.array([u, v, 0]), m, poly.pts, poly.tri)
        if r:
            h.check(AND(ins, far), "inside with the margin means that far from all edges")
        else:
            h.check(OR(out, near_), "not inside with the margin means outside or too close")
    return fn


def contains(plane, big, other, full):
    """Moving polygon against a fixed one; the fixed one is a rectangle [0,a]x[0,b]."""
    def fn(h):
        a, b = big
        outer = Polygon(h.array(embed(plane, [(0, 0), (a, 0), (a, b), (0, b)])), name="p")
        u = h.real("u", -4, 4)
        v = h.real("v", -4, 4) if full else h.pick("v", [-0.5, 0.5, 0.625])
        m = h.pick("margin", [None, 0.0, 0.25] if full else [None, 0.25])
        uv = [(u + x, v + y) for x, y in other]
        inner = Polygon(h.array(embed(plane, uv)), name="q")
        mm = m or 0
        ins = AND(*[AND(x > mm + M, x < a - mm - M, y > mm + M, y < b - mm - M) for x, y in uv])
        out = OR(*[OR(x < mm - M, x > a - mm + M, y < mm - M, y > b - mm + M) for x, y in uv])
        h.assume(OR(ins, out))
        for q in uv:
            clear_of_diagonals(h, outer, lambda p: tuple(float(x) for x in p[:2]), q)
        r = outer.contains_polygon(inner) if m is None else outer.contains_polygon(inner, margin=m)
        h.check(ins if r else out, "containment means all vertices inside with the margin")
    return fn


def cases(tier):
    cs = []
    mem = [("square", "xy", 0, False), ("lshape", "xy", 0, False), ("tri", "skew", 1, True),
           ("arrow", "xy", 2, False), ("square", "yz", 1, True)]
    off = [("square", "xy", 0, False), ("lshape", "tilt", 2, False),
           ("collin", "xy", 3, False), ("collin", "skew", 0, True)]
    bnd = [("square", "xy", 0, False), ("lshape", "xy", 0, False), ("tri", "skew", 0, True),
           ("collin", "yz", 0, False)]
    mar = [("square", 0, False, 0.25, 0.25, ((-1, 3), (-1, 3))),
           ("lshape", 0, False, 0.25, 0.25, ((0.5, 1.5), (0.5, 1.5)))]
    con = [("xy", (4, 2), [(0, 0), (1, 0), (0, 1)], False)]
    if tier != "quick":
        mem += [(s, p, k, f) for s in ("tri", "square", "lshape", "arrow", "collin", "ushape")
                for p, k, f in (("xy", 0, False), ("zx", 0, True), ("tilt", 1, False))
                if (s, k) not in (("lshape", 3), ("arrow", 3), ("collin", 1), ("lshape", 4))]
        off += [(s, "skew", 0, False) for s in ("ushape", "collin", "tri")]
        bnd += [("ushape", "xy", 0, False), ("arrow", "tilt", 0, False), ("lshape", "skew", 1, True)]
        mar += [("tri", 0, True, 0.125, 0.125, ((-1, 4), (-1, 3))),
                ("lshape", 1, True, 0.25, 0.25, ((-1, 4), (-1, 4))),
                ("ushape", 0, False, 0.25, 0.25, ((-1, 4), (-1, 4))),
                ("square", 0, False, 0.01, 2, ((-1, 3), (-1, 3)))]
        con += [("tilt", (4, 2), [(0, 0), (1, 0), (1, 1), (0, 1)], False),
                ("xy", (4, 2), [(0, 0), (1, 0), (0, 1)], True)]
    seen = set()
    for sh, pl, k, f in mem:
        n = f"member-{sh}-{pl}-{k}-{f}"
        if n not in seen:
            seen.add(n)
            cs.append(Case(n, member(sh, pl, k, f), "plane coordinates u, v in [-10,10]"))
    cs += [Case(f"margin-{s}-{k}-{f}-{lo}-{hi}", margin(s, k, f, lo, hi, b),
                f"point in {b}, margin in [{lo},{hi}]") for s, k, f, lo, hi, b in mar]
    cs += [Case(f"contains-{p}-{f}", contains(p, b, o, f), "moved by u (and v) in [-4,4]")
           for p, b, o, f in con]
    cs += [Case(f"off-{s}-{p}-{k}", offplane(s, p, k, f), "u, v in [-5,5], w in [-10,10]")
           for s, p, k, f in off]
    cs += [Case(f"boundary-{s}-{p}", boundary(s, p, k, f), "any edge, any position on it")
           for s, p, k, f in bnd]
    return cs
