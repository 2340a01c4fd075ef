"""Line and segment intersections."""
from building3d.geom.points import is_point_on_segment, is_valid_pt
from building3d.geom.points.intersections import line_intersection, line_segment_intersection

from props.common import PLANES, seg_d2, side
from symex.ctx import AND, NOT, OR, Case, add, cross, dot, near_vec, scale, sub

M = 1e-3
TOL = 1e-4
ASSUMPTIONS = [
    f"configurations within {M} of being parallel, skew, touching or on the segment without being"
    " so are outside the bounds (the code's tolerances decide them)",
]


def zero_or_far(x, m=M):
    return OR(x == 0, x > m, x < -m)


def emb(plane, u, v):
    o, a, b = PLANES[plane]
    return [o[k] + u * a[k] + v * b[k] for k in range(3)]


def lines(d1, d2, plane=None):
    """Two lines with fixed directions, the second moved anywhere."""
    def fn(h):
        p1 = [1.0, -1.0, 0.5]
        p2 = h.reals("p", 3, -10, 10)
        n = cross(d1, d2)
        nn = dot(n, n)
        gap = dot(n, sub(p2, p1))
        h.assume(zero_or_far(gap))
        r = line_intersection(h.array(p1), h.array(d1), h.array(p2), h.array(d2))
        valid = bool(is_valid_pt(r))
        if nn == 0:
            h.check(not valid, "parallel or coincident lines have no intersection")
            return
        if valid:
            h.check(gap == 0, "skew lines have no intersection")
            for p, d in ((p1, d1), (p2, d2)):
                h.check(near_vec(cross(sub(list(r), p), d), [0, 0, 0], TOL),
                        "the point lies on both lines")
        else:
            h.check(NOT(gap == 0), "lines that meet have an intersection")
    return fn


def lines2(plane):
    """Coplanar lines, the second with a symbolic direction."""
    def fn(h):
        p1, d1 = emb(plane, 0, 0), sub(emb(plane, 2, 1), emb(plane, 0, 0))
        a, b = h.real("a", -4, 4), h.real("b", -4, 4)
        p2, d2 = emb(plane, 3, -1), sub(emb(plane, a, b), emb(plane, 0, 0))
        par = a - 2 * b
        h.assume(OR(par == 0, par > 0.125, par < -0.125))
        h.assume(OR(a > 0.125, a < -0.125, b > 0.125, b < -0.125))
        r = line_intersection(h.array(p1), h.array(d1), h.array(p2), h.array(d2))
        if bool(is_valid_pt(r)):
            for p, d in ((p1, d1), (p2, d2)):
                h.check(near_vec(cross(sub(list(r), p), d), [0, 0, 0], TOL),
                        "the point lies on both lines")
            h.check(NOT(par == 0), "parallel lines have no intersection")
        else:
            h.check(par == 0, "lines that meet have an intersection")
    return fn


def zero_dir(h):
    p2 = h.reals("p", 3, -10, 10)
    z, d = h.array([0, 0, 0]), h.array([1, 0, 0])
    for args in ((h.array([0, 0, 0]), z, h.array(p2), d), (h.array([0, 0, 0]), d, h.array(p2), z)):
        h.check(not is_valid_pt(line_intersection(*args)), "zero direction has no intersection")


def segments(plane, A, B, fixed, swap):
    """Segment A-B against one with an end moved anywhere in the plane."""
    def fn(h):
        u, v = h.real("u", -5, 5), h.real("v", -5, 5)
        C, D = fixed, (u, v)
        s1, s2 = side(A, B, C), side(A, B, D)
        s3, s4 = side(C, D, A), side(C, D, B)
        for s in (s2, s3, s4):
            h.assume(zero_or_far(s, 1e-2))
        par = s1 - s2
        h.assume(zero_or_far(par, 1e-2))
        h.assume(OR(u - C[0] > 0.125, u - C[0] < -0.125, v - C[1] > 0.125, v - C[1] < -0.125))
        meet = AND(NOT(par == 0), OR(AND(s1 >= 0, s2 <= 0), AND(s1 <= 0, s2 >= 0)),
                   OR(AND(s3 >= 0, s4 <= 0), AND(s3 <= 0, s4 >= 0)))
        pa, pb, pc, pd = (h.array(emb(plane, *x)) for x in (A, B, C, D))
        args = {"": (pa, pb, pc, pd), "args": (pc, pd, pa, pb), "ends": (pb, pa, pd, pc),
                "end2": (pa, pb, pd, pc)}[swap]
        r = line_segment_intersection(*args)
        if bool(is_valid_pt(r)):
            h.check(meet, "only segments that cross have an intersection")
            for x, y in ((A, B), (C, D)):
                x, y = emb(plane, *x), emb(plane, *y)
                e, f = sub(y, x), sub(list(r), x)
                h.check(near_vec(cross(e, f), [0, 0, 0], TOL), "the point lies on both lines")
                h.check(AND(dot(e, f) >= -TOL, dot(e, f) <= dot(e, e) + TOL),
                        "the point lies within both segments")
        else:
            h.check(NOT(meet), "segments that cross have an intersection")
    return fn


def skew(h):
    """Second segment moved off the plane of the first."""
    w = h.real("w", -3, 3)
    t = h.real("t", -3, 3)
    h.assume(zero_or_far(w, 1e-2))
    h.assume(AND(zero_or_far(t, 1e-2), zero_or_far(t - 2, 1e-2)))
    r = line_segment_intersection(h.array([0, 0, 0]), h.array([2, 0, 0]),
                                  h.array([t, -1, w]), h.array([t, 1, w]))
    meet = AND(w == 0, t >= 0, t <= 2)
    if bool(is_valid_pt(r)):
        h.check(meet, "only segments that cross have an intersection")
        h.check(near_vec(list(r), [t, 0, w], TOL), "the intersection point")
    else:
        h.check(NOT(meet), "segments that cross have an intersection")


def on_segment(a, b):
    def fn(h):
        if h.flag("on"):
            t = h.real("t", 0, 1)
            h.assume(OR(t == 0, t == 1, AND(t > M, t < 1 - M)))
            p = add(a, scale(sub(b, a), t))
            h.check(is_point_on_segment(h.array(p), h.array(a), h.array(b)),
                    "a point of the segment is on it")
            h.check(is_point_on_segment(h.array(p), h.array(b), h.array(a)),
                    "a point of the segment is on it (ends swapped)")
            return
        p = h.reals("p", 3, -10, 10)
        h.assume(OR(*[AND(c, d > M * M) for c, d in seg_d2(p, a, b)]))
        h.check(not is_point_on_segment(h.array(p), h.array(a), h.array(b)),
                "a point off the segment is not on it")
        h.check(not is_point_on_segment(h.array(p), h.array(b), h.array(a)),
                "a point off the segment is not on it (ends swapped)")
    return fn


def cases(tier):
    dirs = [([1.0, 0, 0], [0, 1.0, 0]), ([1.0, 0, 0], [2.0, 0, 0]), ([1.0, 2, 0], [-2.0, -4, 0]),
            ([1.0, 1, 0], [0, 1.0, 2]), ([0, 0, 3.0], [1.0, 0, 1])]
    cs = [Case(f"lines-{i}", lines(a, b), f"directions {a} {b}, second line anywhere")
          for i, (a, b) in enumerate(dirs)]
    cs += [Case("zero-direction", zero_dir, "zero direction vectors"),
           Case("skew", skew, "segment moved along and off the plane")]
    pl = ["xy", "tilt"] if tier == "quick" else list(PLANES)
    cs += [Case(f"lines2-{p}", lines2(p), "direction of the second line symbolic") for p in pl]
    ses = [("xy", (0, 0), (2, 0), (1, 1), ""), ("yz", (0, 0), (2, 1), (-1, 2), "args"),
           ("xy", (0, 0), (2, 0), (1, 0), "ends"), ("tilt", (0, 0), (0, 2), (0, 0), "end2")]
    if tier != "quick":
        ses += [(p, a, b, c, s) for p in ("zx", "skew")
                for a, b, c in (((0, 0), (2, 0), (1, 1)), ((-1, -1), (1, 2), (3, 0)))
                for s in ("", "args", "ends", "end2")]
    cs += [Case(f"segments-{i}-{p}-{s or 'plain'}", segments(p, a, b, c, s),
                f"segment {a}-{b} against {c}-(u,v), u, v in [-5,5]")
           for i, (p, a, b, c, s) in enumerate(ses)]
    cs += [Case(f"onsegment-{i}", on_segment(a, b), f"segment {a}-{b}, point in [-10,10]^3")
           for i, (a, b) in enumerate([([0.0, 0, 0], [2.0, 0, 0]), ([1.0, -1, 0.5], [1.0, 2, 0.5]),
                                       ([0.0, 0, 0], [1.0, 2, -2]), ([3.0, 1, 1], [3.0, 1, -1])])]
    return cs
