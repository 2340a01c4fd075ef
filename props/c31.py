"""Collinearity, coplanarity and equality of points."""
from building3d.geom.points import (are_points_collinear, are_points_coplanar, is_point_in_array,
                                    point_to_tuple, points_equal)

from symex.ctx import AND, NOT, OR, Case, add, cross, dot, scale, sub

M = 1e-2
ASSUMPTIONS = [
    f"points within {M} of the line or plane without being on it are outside the bounds",
    "points are equal when they agree to 1e-13 and different when a coordinate differs by 1e-3;"
    " in between the code's relative tolerance (1e-5) decides",
]
LINES = [([0.0, 0, 0], [2.0, 0, 0]), ([1.0, -1, 0.5], [1.0, 2, 0.5]), ([1.0, 0, 0], [2.0, 2, -2])]


PERP = [([0, 1.0, 0], [0, 0, 1.0]), ([1.0, 0, 0], [1.0, 0, -1]), ([2.0, -1, 0], [0, 1.0, 1])]


SKEW = [-1, 0, 0.25, 1, 2]
OFF = [0, 0.25, -1, 3]


def order(h, pts, name="order"):
    """Any rotation of the list, either direction."""
    n = len(pts)
    k = h.int(name, 0, 2 * n - 1)
    q = pts[k % n:] + pts[:k % n]
    return q[::-1] if k >= n else q


def collinear_point(a, b, e, ss, ts=None):
    """Two fixed points and one in the plane through the line along e."""
    def fn(h):
        s = h.pick("s", ss) if ss else h.real("s", -4, 4)
        t = h.pick("t", ts) if ts else h.real("t", -4, 4)
        h.assume(OR(t == 0, t > M, t < -M))
        for k in (0, 1):
            h.assume(OR(AND(s == k, t == 0), s > k + M, s < k - M, t > M, t < -M))
        p = add(add(a, scale(sub(b, a), s)), scale(e, t))
        r = are_points_collinear(h.array(order(h, [a, b, p])))
        h.check(t == 0 if r else NOT(t == 0), "three points are collinear iff on one line")
    return fn


def on_line(a, b, n, off, more=()):
    """n points of a line at symbolic parameters; optionally one moved off it."""
    def fn(h):
        d = sub(b, a)
        # a direction that is not along d
        side = [d[1] + 1, d[2] - d[0], d[0] - 2] if abs(d[1]) < 1e-9 else [d[1], -d[0], d[2] + 1]
        pts = [a, b] + [add(a, scale(d, t)) for t in more]
        ts = [0, 1] + list(more)
        for i in range(n):
            t = h.real(f"t{i}", -2, 2)
            for s in ts:
                h.assume(OR(t == s, t - s > M, s - t > M))
            ts.append(t)
            pts.append(add(a, scale(d, t)))
        if off:
            pts.append(add(add(a, scale(d, h.pick("ot", [0, 0.5, 3]))), side))
        r = are_points_collinear(h.array(order(h, pts)))
        h.check(bool(r) == (not off), "points are collinear iff on one line, repeated or not")
    return fn


def repeats(h):
    """Every pattern of equality of four points of a line, and of three not on a line."""
    base = [[0.0, 0, 0], [1.0, 2, -1], [2.0, 4, -2], [h.real("x", -3, 3), 1.0, 1.0]]
    h.assume(OR(base[3][0] > 0.75, base[3][0] < 0.25))
    n = h.pick("n", [3, 4])
    idx = [h.int(f"i{k}", 0, 2 if k else 3) for k in range(n)]
    pts = [base[i] for i in idx]
    r = are_points_collinear(h.array(pts))
    used = set(idx)
    h.check(bool(r) == (3 not in used or len(used) <= 2), "repeated points do not matter")


TRIPLES = [([0.0, 0, 0], [2.0, 0, 0], [0.0, 2, 0]), ([1.0, 0, 1], [1.0, 2, 0], [0.0, 1, 2])]


def coplanar(a, b, c, extra, free, fixed):
    """The moving point anywhere in the order; two of its three coordinates are symbolic."""
    def fn(h):
        n = cross(sub(b, a), sub(c, a))
        co = [fixed, fixed, fixed]
        for k in free:
            co[k] = h.real("stw"[k], -3, 3)
        s, t, w = co
        h.assume(OR(w == 0, w > 0.125, w < -0.125))
        for q in (s, t, s + t - 1):  # clear of the lines through the others, or on them
            h.assume(OR(q == 0, q > 0.125, q < -0.125))
        for u, v in ((0, 0), (1, 0), (0, 1)):
            for d in (s - u, t - v):
                h.assume(OR(d == 0, d > 0.125, d < -0.125))
        p = add(add(a, add(scale(sub(b, a), s), scale(sub(c, a), t))), scale(n, w))
        pts = [a, b, c, p] + extra
        k = h.int("order", 0, len(pts) - 1)
        pts = pts[k:] + pts[:k]
        r = are_points_coplanar(h.array(pts))
        h.check(w == 0 if r else NOT(w == 0), "points are coplanar iff in one plane")
    return fn


def coplanar_last(a, b, c, pre):
    """The moving point comes last, after points in the plane."""
    def fn(h):
        p = h.reals("p", 3, -5, 5)
        n = cross(sub(b, a), sub(c, a))
        g = dot(n, sub(p, a))
        h.assume(OR(g == 0, g > 1e-3, g < -1e-3))
        pts = pre + [a, b, c, p]
        r = are_points_coplanar(h.array(pts))
        h.check(g == 0 if r else NOT(g == 0), "points are coplanar iff in one plane")
    return fn


def coplanar_repeats(h):
    """Repeated points, in any pattern, of a tetrahedron with a moving top."""
    x = h.real("x", -2, 2)
    h.assume(OR(x == 0, x > 0.25, x < -0.25))
    base = [[0.0, 0, 0], [2.0, 0, 0], [0.0, 2, 0], [1.0, 1, x]]
    pat = h.pick("pattern", [(0, 0, 1, 1, 2, 2, 3, 3), (0, 1, 0, 1, 2, 3), (0, 0, 0, 1, 2, 3),
                             (0, 1, 1, 2, 2, 3), (0, 0, 1, 2), (0, 1, 1, 3), (3, 3, 2, 2, 1, 1, 0),
                             (0, 1, 2, 3, 0)])
    r = are_points_coplanar(h.array([base[i] for i in pat]))
    flat = len(set(pat)) <= 3
    h.check(flat or x == 0 if r else AND(not flat, NOT(x == 0)),
            "repeated points do not matter for coplanarity")


def equal(h):
    p = h.reals("p", 3, -10, 10)
    d = h.reals("d", 3, -2, 2)
    q = add(p, d)
    small = AND(*[AND(x <= 1e-13, x >= -1e-13) for x in d])
    big = OR(*[OR(x > 1e-3, x < -1e-3) for x in d])
    h.assume(OR(AND(*[x == 0 for x in d]), big) if not h.symbolic else OR(small, big))
    for a, b in ((p, q), (q, p)):
        r = points_equal(h.array(a), h.array(b))
        h.check(NOT(big) if r else big, "points are equal iff all coordinates agree")
    other = [20.0, 20.0, 20.0]
    r = is_point_in_array(h.array(p), h.array([other, q, other]))
    h.check(NOT(big) if r else big, "a point is in an array iff it equals one of the points")


def tuples(h):
    p = h.reals("p", 3, -10, 10)
    dec = h.int("decimals", 0, 8)
    t = point_to_tuple(h.array(p), dec)
    h.check(len(t) == 3, "three coordinates")
    half = 0.5 * 10.0 ** -dec + 1e-12
    for k in range(3):
        h.check(AND(t[k] - p[k] <= half, p[k] - t[k] <= half), "rounded to the decimals")
    u = point_to_tuple(h.array(p), dec)
    h.check(AND(*[t[k] == u[k] for k in range(3)]), "equal points give equal keys")


def tuple_keys(h):
    """Grid points moved by less than half a unit have the key of the grid point."""
    dec = h.int("decimals", 0, 8)
    g0 = h.int("g", -2, 2)
    g = [g0 * 10.0 ** -dec, (1 - g0) * 10.0 ** -dec, 3 * 10.0 ** -dec]
    d = h.reals("d", 3, -0.25, 0.25)
    t = point_to_tuple(h.array([g[k] + d[k] * 10.0 ** -dec for k in range(3)]), dec)
    for k in range(3):
        h.check(AND(t[k] - g[k] <= 1e-13, g[k] - t[k] <= 1e-13), "key of the rounded point")


def cases(tier):
    cs = []
    for i, (a, b) in enumerate(LINES):
        for j, e in enumerate(PERP[i]):
            cs.append(Case(f"collinear-{i}-{j}", collinear_point(a, b, e, SKEW),
                           "third point at any distance from the line, 6 orders"))
            cs.append(Case(f"collinear-{i}-{j}-s", collinear_point(a, b, e, None, OFF),
                           "third point anywhere along the line, 6 orders"))
            if tier != "quick" and i < 2:
                cs.append(Case(f"collinear-{i}-{j}-st", collinear_point(a, b, e, None),
                               "third point in a plane through the line, 6 orders"))
        for n, off in ((1, False), (2, False), (1, True)):
            cs.append(Case(f"online-{i}-{n}-{off}", on_line(a, b, n, off),
                           f"{n} points at symbolic parameters in [-2,2], any rotation"))
    for off in (False, True):
        cs.append(Case(f"online-many-{off}", on_line(*LINES[1], 1, off, (2, -1, 3, 0.5)),
                       "one point at a symbolic parameter and six others, any rotation"))
    cs += [Case("repeats", repeats, "all index patterns of 3..4 points"),
           Case("coplanar-repeats", coplanar_repeats, "8 patterns, height in [-2,2]"),
           Case("equal", equal, "all points in [-10,10]^3 and displacements in [-2,2]^3"),
           Case("tuples", tuples, "points in [-10,10]^3, 0..8 decimals"),
           Case("tuple-keys", tuple_keys, "grid points, displacement below half a unit")]
    for i, (a, b, c) in enumerate(TRIPLES):
        cs.append(Case(f"coplanar-last-{i}", coplanar_last(a, b, c, []), "fourth point in [-5,5]^3"))
        mid = scale(add(a, b), 0.5)
        cs.append(Case(f"coplanar-lead-{i}", coplanar_last(a, b, c, [b, mid]),
                       "leading collinear points"))
        for free in ((0, 2), (1, 2), (0, 1)):
            if tier != "quick" or i == 0:
                fx = 0.0 if 2 not in free else 0.5
                cs.append(Case(f"coplanar-{i}-{free[0]}{free[1]}", coplanar(a, b, c, [], free, fx),
                               "fourth point at symbolic plane coordinates and height"))
    if tier != "quick":
        a, b, c = TRIPLES[0]
        cs.append(Case("coplanar-5", coplanar(a, b, c, [[1.0, 1, 0]], (0, 2), 0.25),
                       "fifth point in the plane"))
        cs += [Case(f"online-{i}-3-False", on_line(a, b, 3, False), "3 points of the line")
               for i, (a, b) in enumerate(LINES)]
    return cs
