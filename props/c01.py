"""Ear-clipping triangulation."""
from building3d.geom.polygon import Polygon
from building3d.geom.triangles import triangulate

from props.common import embed, plane_normal, rot
from symex.ctx import AND, OR, Case, cross, dot, sub

M = 1e-2
ASSUMPTIONS = [
    f"polygons are simple; no three vertices are closer than {M} to being on a line without being"
    " exactly on it (the code's tolerances decide those)",
    "positive orientation of all triangles, every polygon edge used exactly once and every"
    " diagonal exactly once in each direction imply that the triangles tile the polygon"
    " (winding numbers)",
]


def side3(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def general(h, uv, moving, exact=()):
    """Triples containing a moving vertex are clear of (or, if listed, exactly) collinear."""
    n = len(uv)
    for i in range(n):
        for j in range(i):
            for k in range(j):
                if moving & {i, j, k}:
                    s = side3(uv[i], uv[j], uv[k])
                    if isinstance(s, (int, float)):
                        continue
                    t = frozenset((i, j, k))
                    c = [s > M, s < -M] + ([s == 0] if exact == "all" or t in exact else [])
                    h.assume(OR(*c))


# families: name -> (variables with ranges, vertices of the variables, simplicity condition,
# indices of the moving vertices, indices of corners that are always convex)
def fam_tri(h):
    u, v = h.real("u", -5, 5), h.real("v", -5, 5)
    h.assume(v > 0.05)
    return [(0, 0), (3, 0), (u, v)], {2}, (0, 1, 2)


def fam_quad(h):
    u, v = h.real("u", -5, 5), h.real("v", -5, 5)
    h.assume(AND(u > 0.05, v > 0.05))
    return [(0, 0), (4, 0), (u, v), (0, 4)], {2}, (0, 1, 3)


def fam_notch(h):
    u, v = h.real("u", -5, 8), h.real("v", 0, 6)
    h.assume(AND(u > 0.05, u < 3.95, v > 0.05))
    return [(0, 0), (4, 0), (4, 4), (u, v), (0, 4)], {3}, (0, 1, 2, 4)


def fam_l(h):
    u, v = h.real("u", 0, 4), h.real("v", 0, 4)
    h.assume(AND(u > 0.05, v > 0.05, u < 3.95, v < 3.95))
    h.assume(u + v < 4.95)
    return [(0, 0), (4, 0), (4, 1), (u, v), (1, 4), (0, 4)], {3}, (0, 1, 2, 4, 5)


def fam_u(h):
    v = h.real("v", 0, 6)
    w = h.real("w", 0, 6)
    h.assume(AND(v > 0.05, v < 5.95, w > 0.05, w < 5.95))
    return [(0, 0), (6, 0), (6, 6), (4, 6), (4, v), (2, w), (2, 6), (0, 6)], {4, 5}, (0, 1, 2, 7)


def fam_spike(h):
    """A spike that reaches deep into the polygon, between other vertices."""
    u = h.real("u", 0, 6)
    h.assume(AND(u > 0.05, u < 5.95))
    return [(0, 0), (6, 0), (6, 6), (4, 6), (u, 1), (3, 6), (0, 6)], {4}, (0, 1, 2, 6)


def fam_dent(h):
    """Vertices on prolongations of edges: exactly aligned for some values."""
    u = h.real("u", 1.125, 5.875)
    return [(0, 0), (6, 0), (6, 4), (u, 4), (u, 2), (1, 2), (1, 4), (0, 4)], {3, 4}, (0, 1, 2, 7)


def fam_two(h):
    u, v = h.real("u", 0, 4), h.real("v", 0, 4)
    h.assume(AND(u > 0.05, u < 3.95, v > 0.05, v < 3.95))
    # two dents, one from below and one from above
    h.assume(OR(v > u + 0.05))
    return [(0, 0), (2, u), (4, 0), (4, 4), (2, v), (0, 4)], {1, 4}, (0, 2, 3, 5)


def fam_step(h):
    u, v = h.real("u", 0, 4), h.real("v", 0, 4)
    h.assume(AND(u > 0.05, v > 0.05, u < 1.95, v < 3.95, v > 2.05))
    return [(0, 0), (4, 0), (4, 2), (2, 2), (2, v), (u, v), (u, 4), (0, 4)], {4, 5, 6}, (0, 1, 7)


RING = [(0, 6), (-4, -1), (-6, 3), (-8, -3), (-1, -3), None, (1, -3), (8, -3), (6, 3), (4, -1)]


def fam_ring(h):
    """Only one corner (the moving one) lies in the triangle at the top; the corners clipped before
    the top leave it in any place of the list."""
    u = h.real("u", -1, 1)
    return [(u, 2) if p is None else p for p in RING], {5}, (0, 2, 3, 4, 6, 7, 8)


def fam_ring2(h):
    """As ring, with ears at both sides of the moving corner."""
    u = h.real("u", -0.25, 0.25)
    uv = [(u, 2) if p is None else p for p in RING]
    return uv[:5] + [(-0.375, -1), uv[5], (0.375, -1)] + uv[6:], {6}, (0, 2, 3, 5, 7, 9, 10)


FAMS = {"ring": fam_ring, "ring2": fam_ring2, "tri": fam_tri, "quad": fam_quad, "notch": fam_notch, "l": fam_l, "u": fam_u,
        "spike": fam_spike, "dent": fam_dent, "two": fam_two, "step": fam_step}


def same_cycle(a, b):
    """Vertex lists are cyclic rotations of each other."""
    n = len(a)
    return OR(*[AND(*[a[i][k] == b[(i + s) % n][k] for i in range(n) for k in range(3)])
                for s in range(n)])


def check_tiling(h, pts, tri, n, normal):
    tri = [[int(x) for x in t] for t in tri]
    h.check(len(pts) == n, "number of vertices is kept")
    h.check(len(tri) == n - 2, "n-2 triangles")
    count = {}
    for t in tri:
        h.check(all(0 <= x < n for x in t) and len(set(t)) == 3, "triangles use the vertices")
        a, b, c = (pts[x] for x in t)
        h.check(dot(cross(sub(b, a), sub(c, a)), normal) > 0, "triangle wound with the normal")
        for i in range(3):
            e = (t[i], t[(i + 1) % 3])
            count[e] = count.get(e, 0) + 1
    h.check(all(v == 1 for v in count.values()), "no edge is used twice in one direction")
    for i in range(n):
        e = (i, (i + 1) % n)
        h.check(count.get(e) == 1 and e[::-1] not in count, "polygon edge used exactly once")
    for e in count:
        if e[1] != (e[0] + 1) % n:
            h.check(e[::-1] in count, "diagonal used in both directions")


def tile(fam, plane, flip, with_vn, via, shift=None, exact=()):
    def fn(h):
        uv, moving, convex = FAMS[fam](h)
        general(h, uv, moving, exact)
        n = len(uv)
        # "any": any corner, needs the normal
        if shift is not None:
            s = shift
        elif with_vn == "no":
            s = h.pick("shift", list(convex))
        else:
            s = h.int("shift", 0, n - 1)
        uv = rot(uv, s)
        if flip:
            uv = [uv[0]] + uv[1:][::-1]
        pin = embed(plane, uv)
        nrm = plane_normal(plane)
        ln = sum(x * x for x in nrm) ** 0.5
        sgn = -1.0 if flip else 1.0
        if with_vn == "opposite":
            sgn = -sgn
        unit = [sgn * x / ln for x in nrm]
        want = [pin[0]] + pin[1:][::-1] if with_vn == "opposite" else pin
        arr = h.array(pin)
        if via == "polygon":
            p = Polygon(arr, name="p") if with_vn == "no" else Polygon(arr, name="p", vn=h.array(unit))
            pts, tri = p.pts, p.tri
            h.check(AND(*[x - y < 1e-6 for x, y in zip(p.vn, unit)],
                        *[y - x < 1e-6 for x, y in zip(p.vn, unit)]), "normal")
        else:
            pts, tri = triangulate(arr, h.array(unit))
        h.check(same_cycle(want, pts), "vertices and their cyclic order are kept")
        check_tiling(h, pts, tri, n, unit)
        h.check(AND(*[arr[i][k] == pin[i][k] for i in range(n) for k in range(3)]),
                "input is not modified")
    return fn


def cases(tier):
    q = [("tri", "skew", False, "no", "polygon"), ("quad", "xy", False, "no", "polygon"),
         ("quad", "xy", True, "same", "polygon"), ("quad", "yz", False, "opposite", "polygon"),
         ("notch", "xy", False, "no", "polygon"), ("notch", "xy", False, "same", "polygon"),
         ("l", "xy", False, "no", "polygon", 0), ("l", "xy", True, "same", "function", 3),
         ("u", "xy", False, "no", "polygon", 0), ("spike", "xy", False, "no", "polygon", 0),
         ("dent", "xy", False, "same", "function", 2, "all"), ("two", "xy", False, "same", "polygon", 1),
         ("step", "xy", False, "no", "polygon", 0), ("ring", "xy", False, "no", "polygon"),
         ("ring2", "xy", False, "no", "polygon"), ("ring", "xy", True, "no", "polygon"),
         ("ring2", "yz", True, "no", "polygon")]
    if tier != "quick":
        q += [(f, p, fl, w, "polygon") for f in FAMS for p, fl, w in
              (("xy", False, "no"), ("zx", True, "same"), ("tilt", False, "no"),
               ("xy", True, "opposite")) if f not in ("dent", "step")]
        q += [(f, p, fl, w, "polygon", None, "all") for f in FAMS for p, fl, w in
              (("yz", False, "no"), ("xy", True, "same"))]
    cs = []
    for a in q:
        cs.append(Case("-".join(str(x) for x in a), tile(*a), "moving vertices in the stated ranges"))
    cs.append(Case("quad-collinear", tile("quad", "xy", False, "no", "polygon", None, "all"),
                   "as quad, exactly collinear vertices included"))
    cs.append(Case("dent-collinear", tile("dent", "xy", False, "no", "polygon", 0, "all"),
                   "as dent, exactly collinear vertices included"))
    return cs
