"""Projection of a point along a vector and target surfaces of rays."""
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.distance import distance_point_to_polygon
from building3d.geom.polygon.ispointinside import is_point_inside_projection
from building3d.sim.rays.find_target import find_target_surface

from props.common import PLANES, SHAPES, at, inside, outside, plane_normal, points3, rot
from symex.ctx import AND, Case, OR, dot, near, sub, truth

M = 0.01
ASSUMPTIONS = [
    "a point from which a half-line starts on the polygon is in a coordinate plane, where the"
    " arithmetic is exact",
    f"the projected point is on the outline of the polygon or at least {M} away from it; the tested"
    f" point is in the plane of the polygon or at least {M} away from it; vectors are parallel to"
    " the plane or clearly not",
    "nearest target: the distance is the one of distance_point_to_polygon, which C04 checks",
]


def make(h, plane, shape, k=0, rev=False):
    pts = rot(points3(shape, plane), k)
    p = Polygon(h.array(pts[::-1] if rev else pts), name="p")
    return p.pts, p.tri


def local(plane, v):
    """Components of v along e1, e2 and the normal of the plane."""
    _, e1, e2 = PLANES[plane]
    n = plane_normal(plane)
    nn = dot(n, n)
    w = dot(n, v) * (1 / nn)
    r = [v[k] - w * n[k] for k in range(3)]
    a, b, c = dot(e1, e1), dot(e1, e2), dot(e2, e2)
    d = a * c - b * b
    x, y = dot(r, e1), dot(r, e2)
    return (x * c - y * b) * (1 / d), (y * a - x * b) * (1 / d), w


def free(h, plane):
    """A point (u, v) of the plane; in the oblique planes v takes some values only."""
    u = h.real("u", -1, 4)
    if plane in ("tilt", "skew"):
        return u, h.pick("v", [-0.5, 0.25, 0.75, 1.5, 2.25])
    return u, h.real("v", -1, 4)


def hit(h, plane, pts, tri, p, v, expect):
    """expect: (meets the line, meets the forward half-line)"""
    got = bool(is_point_inside_projection(h.array(p), h.array(v), pts, tri, fwd_only=False, atol=1e-6))
    h.check(got == expect[0], "the line meets the polygon" if expect[0] else "the line misses")
    got = bool(is_point_inside_projection(h.array(p), h.array(v), pts, tri, fwd_only=True, atol=1e-6))
    h.check(got == expect[1], "the half-line meets the polygon" if expect[1] else "the half-line misses")
    if expect[0]:
        got = bool(is_point_inside_projection(h.array(p), h.array([-x for x in v]), pts, tri,
                                              fwd_only=True, atol=1e-6))
        h.check(got == (not expect[1]), "seen from the other side")


def position(shape, plane, v, fwd, want, rev=False, k=0):
    """Fixed direction (in coordinates of the plane), free position."""
    def fn(h):
        pts, tri = make(h, plane, shape, k, rev)
        s = h.real("s", M, 4)
        u0, u1 = free(h, plane)
        h.assume(inside(shape, (u0, u1), M) if want else outside(shape, (u0, u1), M))
        sg = 1 if fwd else -1
        p = at(plane, u0 - sg * s * v[0], u1 - sg * s * v[1], -sg * s * v[2])
        n = plane_normal(plane)
        _, e1, e2 = PLANES[plane]
        d = [v[0] * e1[c] + v[1] * e2[c] + v[2] * n[c] for c in range(3)]
        hit(h, plane, pts, tri, p, d, (want, want and fwd))
    return fn


def direction(shape, plane, start, want):
    """Fixed position, free direction: the target point (u, v) is free."""
    def fn(h):
        pts, tri = make(h, plane, shape)
        u, v = free(h, plane)
        h.assume(inside(shape, (u, v), M) if want else outside(shape, (u, v), M))
        p = at(plane, *start)
        d = sub(at(plane, u, v), p)
        hit(h, plane, pts, tri, p, d, (want, want))
    return fn


def outline(shape, plane, i, v):
    """The projected point is on an edge (or corner)."""
    def fn(h):
        pts, tri = make(h, plane, shape)
        t = h.pick("corner", [0, 1]) if h.flag("at_corner") else h.real("t", 0.01, 0.99)
        uv = SHAPES[shape]
        a, b = uv[i], uv[(i + 1) % len(uv)]
        q = (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)
        p = at(plane, q[0] - v[0], q[1] - v[1], -v[2])
        hit(h, plane, pts, tri, p, sub(at(plane, *q), p), (True, True))
    return fn


def inplane(shape, plane, par, want):
    """The point lies in the plane of the polygon."""
    def fn(h):
        pts, tri = make(h, plane, shape)
        u, v = free(h, plane)
        h.assume(inside(shape, (u, v), M) if want else outside(shape, (u, v), M))
        p = at(plane, u, v)
        _, e1, e2 = PLANES[plane]
        d = e1 if par else [x * 2 + y for x, y in zip(plane_normal(plane), e2)]
        for fwd in (True, False):
            got = bool(is_point_inside_projection(h.array(p), h.array(d), pts, tri, fwd_only=fwd,
                                                  atol=1e-6))
            h.check(got == want, "a point on the polygon hits it")
    return fn


def parallel(shape, plane):
    def fn(h):
        pts, tri = make(h, plane, shape)
        w = h.real("w", -3, 3)
        h.assume(OR(w > M, w < -M))
        u = h.real("u", -1, 4)
        _, e1, e2 = PLANES[plane]
        for d in (e1, [-x for x in e2]):
            for fwd in (True, False):
                h.check(not is_point_inside_projection(h.array(at(plane, u, 0.5, w)), h.array(d), pts,
                                                       tri, fwd_only=fwd, atol=1e-6),
                        "a line parallel to the plane misses")
    return fn


# ------------------------------------------------------------------ target surfaces
def sq(x0, y0, x1, y1, z):
    return [(x0, y0, z), (x1, y0, z), (x1, y1, z), (x0, y1, z)]


SCENES = {
    # names: list of corner lists
    "stack": [sq(0, 0, 2, 2, -1.0), sq(0, 0, 2, 2, 1.0), sq(1, -1, 3, 3, -2.0), sq(0.5, 0.5, 4, 4, 3.0)],
    "box": [sq(0, 0, 2, 2, 0.0)[::-1], sq(0, 0, 2, 2, 2.0),
            [(0, 0, 0), (2, 0, 0), (2, 0, 2), (0, 0, 2)], [(2, 0, 0), (2, 2, 0), (2, 2, 2), (2, 0, 2)],
            [(2, 2, 0), (0, 2, 0), (0, 2, 2), (2, 2, 2)], [(0, 2, 0), (0, 0, 0), (0, 0, 2), (0, 2, 2)]],
    "step": [[(0, 0, 0), (3, 0, 0), (3, 0, 1), (1, 0, 1), (1, 0, 3), (0, 0, 3)],
             [(-1, 2, -1), (4, 2, -1), (4, 2, 4), (-1, 2, 4)], [(0, 4, 0), (3, 4, 0), (3, 4, 3)]],
    "close": [sq(0, 0, 2, 2, 0.375), sq(1, -1, 3, 3, 0.125), sq(0, 0, 2, 4, 0.0)],
    "slope": [[(0, 0, 0), (2, 0, 1), (2, 2, 1), (0, 2, 0)], sq(-1, -1, 3, 3, -1.0), sq(-1, -1, 3, 3, 4.0)],
}


def meets(pts, p, d):
    """(certainly hit by the forward half-line, certainly missed) for a convex or L-shaped polygon."""
    a, b = sub(pts[1], pts[0]), sub(pts[-1], pts[0])
    n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    den = dot(n, d)
    if den == 0:
        # only a point on the polygon counts, and positions are clear of all planes
        return False, True
    s = dot(n, sub(pts[0], p)) * (1 / den)
    q = [p[k] + s * d[k] for k in range(3)]
    pieces = [pts] if len(pts) < 6 else [[pts[0], pts[1], pts[2], (pts[0][0], pts[0][1], pts[2][2])],
                                         [pts[0], (pts[4][0], pts[0][1], pts[0][2]), pts[4], pts[5]]]
    ins, outs = [], []
    for piece in pieces:
        m = len(piece)
        cs = []
        for i in range(m):
            e = sub(piece[(i + 1) % m], piece[i])
            c = [n[1] * e[2] - n[2] * e[1], n[2] * e[0] - n[0] * e[2], n[0] * e[1] - n[1] * e[0]]
            ln = dot(c, c) ** 0.5
            cs.append(dot(c, sub(q, piece[i])) * (1 / ln))
        ins.append(AND(*[x > M for x in cs]))
        outs.append(OR(*[x < -M for x in cs]))
    return AND(s > M, OR(*ins)), OR(s < -M, AND(*outs))


def target(scene, d, lo, hi, free, start, subset=None, transparent=()):
    def fn(h):
        skip = transparent
        if skip == "any":
            skip = h.pick("transparent", [(), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)])
        polys = SCENES[scene]
        objs = [Polygon(h.array(p), name=f"p{i}") for i, p in enumerate(polys)]
        p = [h.real("xyz"[k], lo[k], hi[k]) if "xyz"[k] in free else start[k] for k in range(3)]
        cand = []
        check = set(range(len(polys))) if subset is None else set(subset)
        for i, q in enumerate(polys):
            hits, miss = meets(q, p, d)
            h.assume(OR(hits, miss))
            if i in check and i not in skip and truth(hits):
                cand.append(i)
        t = set(skip) or {-1}
        r = int(find_target_surface(h.array(p), h.array(d), [o.pts for o in objs],
                                    [o.tri for o in objs], t, set(check), atol=1e-3))
        if not cand:
            h.check(r == -1, "no target when nothing is hit")
            return
        h.check(r in cand, "the target is hit by the ray")
        dist = {i: distance_point_to_polygon(h.array(p), objs[i].pts, objs[i].tri, objs[i].vn)
                for i in cand}
        for i in cand:
            if r in cand and i != r:
                h.check(dist[r] <= dist[i] + 1e-9, "no other polygon that is hit is nearer")
    return fn


def cases(tier):
    cs = []
    b = "all positions/targets within 1 to 4 m around the polygon"
    dirs = [(0, 0, 1), (0.5, -0.25, 1), (1, 1, -0.5)]
    combos = [("square", "xy", 0), ("tri", "tilt", 1), ("lshape", "yz", 1), ("arrow", "xy", 2)]
    if tier == "thorough":
        combos += [(s, p, k) for s in ("square", "tri", "lshape", "ushape", "arrow", "collin")
                   for p in PLANES for k in range(3)]
    for s, pl, k in dict.fromkeys(combos):
        for fwd in (True, False):
            for want in (True, False):
                cs.append(Case(f"pos-{s}-{pl}-{k}-{'fwd' if fwd else 'back'}-{'hit' if want else 'miss'}",
                               position(s, pl, dirs[k], fwd, want, rev=(k == 1)), b))
    for s, pl, st in [("square", "zx", (0.5, 0.5, 2)), ("lshape", "xy", (4, 4, -1)), ("tri", "skew", (-2, 1, 1))] + \
            ([("ushape", "tilt", (1.5, 2, 3)), ("arrow", "yz", (-1, 1, 0.5))] if tier == "thorough" else []):
        for want in (True, False):
            cs.append(Case(f"dir-{s}-{pl}-{'hit' if want else 'miss'}", direction(s, pl, st, want), b))
    for s, pl in [("square", "yz"), ("lshape", "tilt"), ("tri", "skew"), ("arrow", "xy")]:
        for i in range(len(SHAPES[s])):
            if tier == "thorough" or i < 3 or s == "tri":
                cs.append(Case(f"outline-{s}-{pl}-{i}", outline(s, pl, i, (0.5, -1, 2 - 4 * (i % 2))), b))
        for want in (True, False):
            if pl in ("xy", "yz", "zx"):  # elsewhere rounding decides which side the point is on
                cs.append(Case(f"inplane-{s}-{pl}-{'in' if want else 'out'}", inplane(s, pl, False, want), b))
            cs.append(Case(f"inplane-par-{s}-{pl}-{'in' if want else 'out'}", inplane(s, pl, True, want), b))
        cs.append(Case(f"parallel-{s}-{pl}", parallel(s, pl), b))
    box = ((0.02, 0.02, 0.02), (1.98, 1.98, 1.98))
    tg = [("box-diag", "box", (2, 2, 1), *box, "xy", (1, 1, 0.75)),
          ("box-diag2", "box", (-1, 2, -2), *box, "yz", (1.25, 1, 1)),
          ("box-axis", "box", (0, 0, -3), *box, "xz", (1, 1, 1)),
          ("box-flat", "box", (3, -4, 0), *box, "xy", (1, 1, 0.5)),
          ("box-subset", "box", (2, 2, 1), *box, "xy", (1, 1, 0.75), (0, 1, 3, 5)),
          ("box-transparent", "box", (2, 2, 1), *box, "xy", (1, 1, 1.75), None, (3, 4)),
          ("stack-down", "stack", (0, 0, -1), (-1, -1, -3), (4, 4, 4), "xz", (0, 1.5, 0)),
          ("stack-up", "stack", (0.5, 0.25, 1), (-1, -1, -3), (4, 4, 4), "z", (0.75, 1.5, 0)),
          ("stack-transparent", "stack", (0.5, 0.25, 1), (-1, -1, -3), (4, 4, 4), "z", (0.75, 1.5, 0), None, (1,)),
          ("stack-subset", "stack", (0, 0, -1), (-1, -1, -3), (4, 4, 4), "xz", (0, 1.5, 0), (2, 3)),
          ("step-through", "step", (0.25, 1, 0.5), (-2, -2, -2), (4, 5, 4), "x", (0, -1, 0.25)),
          ("step-approach", "step", (0.25, 1, 0.5), (-2, -2, -2), (4, 5, 4), "y", (0.5, 0, 0.25)),
          ("close-up", "close", (0, 0, 1), (-1, -1, -2), (4, 4, 2), "xz", (0, 1.5, 0), None, "any"),
          ("close-down", "close", (0.25, 0.5, -1), (-1, -1, -2), (4, 4, 2), "z", (1.5, 0.5, 0), None, "any"),
          ("close-side", "close", (0.5, 0.25, 0.25), (-6, -1, -2), (4, 4, 2), "x", (0, 0.75, -0.5), None, "any"),
          ("slope-down", "slope", (0.5, 0, -1), (-1, -1, -2), (3, 3, 5), "x", (0, 0.75, 2)),
          ("slope-up", "slope", (-1, 1, 2), (-1, -1, -2), (3, 3, 5), "z", (1.25, 0, 0))]
    if tier == "thorough":
        tg += [("stack-up2", "stack", (0.5, 0.25, 1), (-1, -1, -3), (4, 4, 4), "yz", (0.75, 1.5, 0)),
               ("slope-down2", "slope", (0.5, 0, -1), (-1, -1, -2), (3, 3, 5), "xz", (0, 0.75, 0)),
               ("slope-up2", "slope", (-1, 1, 2), (-1, -1, -2), (3, 3, 5), "yz", (1.25, 0, 0)),
               ("box-axis2", "box", (0, 0, -3), *box, "xyz", (1, 1, 1)),
               ("box-3d", "box", (2, 2, 1), *box, "xyz", (1, 1, 1)),
               ("step-back", "step", (0.25, -1, 0.5), (-2, -2, -2), (4, 6, 4), "yz", (1.5, 0, 0.25))]
    for t in tg:
        cs.append(Case("target-" + t[0], target(*t[1:]), "all positions in the scene, fixed direction"))
    return cs
