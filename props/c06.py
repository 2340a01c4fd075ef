"""Rotations."""
import math

from building3d.geom.rotation import rotate_points_around_vector, rotate_points_to_plane
from building3d.geom.vectors import normal

from symex.ctx import AND, Case, cross, dot, near, near_vec, scale, sub

TOL = 1e-6
ASSUMPTIONS = ["an angle in [-pi, pi] is represented by the sine and cosine of its half",
               "axes and target normals are taken from the listed unit vectors"]
AXES = {"x": (1.0, 0, 0), "z": (0, 0, 1.0), "-y": (0, -1.0, 0), "xz": (0.6, 0, 0.8),
        "xyz": (2 / 3, -1 / 3, 2 / 3)}


def perp(u):
    w = cross(u, (1.0, 0, 0)) if abs(u[0]) < 0.9 else cross(u, (0, 1.0, 0))
    return w


def about(u, npts, dist=True):
    """dist: check distances on the points, otherwise through the rows of the matrix."""
    def fn(h):
        phi = h.angle("phi")
        pts = [h.reals(f"p{i}_", 3, -10, 10) for i in range(npts)]
        arr = h.array(pts)
        r, R = rotate_points_around_vector(arr, h.array(u), phi)
        h.check(tuple(r.shape) == (npts, 3) and tuple(R.shape) == (3, 3), "shapes")
        for i in range(npts):
            for k in range(3):
                h.close(dot(R[k], pts[i]), r[i, k], TOL, "matrix maps the points to the result")
            if not dist:
                continue
            h.close(dot(r[i], r[i]), dot(pts[i], pts[i]), TOL, "distance to the origin is kept")
            h.close(dot(r[i], u), dot(pts[i], u), TOL, "component along the axis is kept")
            for j in range(i):
                d, e = sub(r[i], r[j]), sub(pts[i], pts[j])
                h.close(dot(d, d), dot(e, e), TOL, "distances are kept")
        for i in range(3):
            for j in range(i + 1):
                h.close(dot(R[i], R[j]), float(i == j), 1e-9, "rows of the matrix are orthonormal")
            h.close(dot([R[k, i] for k in range(3)], u), u[i], 1e-9, "axis component is kept")
        h.close(dot(cross(R[0], R[1]), R[2]), 1.0, 1e-8, "no reflection")
        h.check(AND(*[arr[i, k] == pts[i][k] for i in range(npts) for k in range(3)]),
                "input is not modified")
    return fn


def turn(u):
    """Axis points stay, perpendicular vectors turn by the angle, right-handed."""
    def fn(h):
        phi = h.angle("phi")
        s, c = sincos(h, phi)
        t = h.real("t", -10, 10)
        w = perp(u)
        r, R = rotate_points_around_vector(h.array([scale(u, t), w]), h.array(u), phi)
        h.check(near_vec(r[0], scale(u, t), TOL), "the axis is fixed")
        n = cross(u, w)
        want = [c * w[k] + s * n[k] for k in range(3)]
        h.check(near_vec(r[1], want, TOL), "perpendicular vectors turn by the angle")
    return fn


def sincos(h, phi):
    if h.symbolic:
        from symex import core
        return core.ssin(phi), core.scos(phi)
    return math.sin(phi), math.cos(phi)


def none(kind):
    """Nothing to rotate: zero angle or zero axis."""
    def fn(h):
        p = h.reals("p", 3, -10, 10)
        u, phi = ((0, 0, 1.0), 0.0) if kind == "angle" else ((0, 0, 0), 1.0)
        r, R = rotate_points_around_vector(h.array([p, [1.0, 2.0, 3.0]]), h.array(u), phi)
        h.check(near_vec(r[0], p, TOL), "points stay")
        for k in range(3):
            h.close(dot(R[k], p), p[k], TOL, "matrix maps the points to the result")
    return fn


TRI = {"flat": [(0.0, 0, 0), (2.0, 0, 0), (0, 1.0, 0)], "up": [(1.0, 1, 0), (1.0, 1, 2), (1.0, 4, 0)],
       "tilt": [(0.0, 0, 0), (3.0, 0, 4), (0, 2.0, 0)]}
NORMALS = {"z": (0, 0, 1.0), "-z": (0, 0, -1.0), "x": (1.0, 0, 0), "-x": (-1.0, 0, 0),
           "xz": (0.6, 0, 0.8), "yz": (0, 0.8, -0.6)}


def to_plane(tri, nrm, anchor, dval):
    def fn(h):
        x, y = h.real("x", -5, 5), h.real("y", -5, 5)
        base = TRI[tri]
        e1, e2 = sub(base[1], base[0]), sub(base[2], base[0])
        # the fourth point lies in the plane of the triangle
        pts = [[base[0][k] for k in range(3)], list(base[1]), list(base[2]),
               [base[0][k] + x * e1[k] + y * e2[k] for k in range(3)]]
        # the normal is taken at the first corner, from the last point
        h.assume(y > 0.125)
        sh = [h.real(f"m{k}", -3, 3) for k in range(3)]
        pts = [[p[k] + sh[k] for k in range(3)] for p in pts]
        a = {"zero": [0.0, 0, 0], "first": pts[0], "free": [h.real(f"a{k}", -3, 3) for k in range(3)]
             }[anchor]
        d = h.real("d", -3, 3) if dval else 0.0
        u = NORMALS[nrm]
        arr = h.array(pts)
        r, axis, phi = rotate_points_to_plane(arr, h.array(a), h.array(u), d)
        h.check(AND(*[arr[i, k] == pts[i][k] for i in range(4) for k in range(3)]),
                "input is not modified")
        for i in range(4):
            for j in range(i):
                v, w = sub(r[i], r[j]), sub(pts[i], pts[j])
                h.close(dot(v, v), dot(w, w), TOL, "distances are kept")
        n = cross(sub(r[0], r[-1]), sub(r[1], r[-1]))
        h.check(dot(n, u) > 0, "normal points along the requested one")
        h.check(near_vec(cross(n, u), [0, 0, 0], 1e-5), "normal is along the requested one")
        # the anchor, carried along by the motion and taken back by d*u, stays where it is
        for i in range(4):
            v = [r[i][k] - d * u[k] - a[k] for k in range(3)]
            w = [pts[i][k] - a[k] for k in range(3)]
            h.close(dot(v, v), dot(w, w), TOL, "anchor is the fixed point of the rotation")
    return fn


def cases(tier):
    cs = []
    for k, u in AXES.items():
        cs.append(Case(f"about-{k}", about(u, 2, 1.0 in map(abs, u)), "two points in [-10,10]^3, any angle"))
        cs.append(Case(f"turn-{k}", turn(u), "any angle"))
    cs += [Case("none-angle", none("angle"), "zero angle"), Case("none-axis", none("axis"), "zero axis")]
    pl = [("flat", "z", "zero", False), ("flat", "x", "first", True), ("flat", "-z", "zero", False),
          ("flat", "z", "first", True), ("up", "z", "free", True), ("up", "x", "free", True),
          ("tilt", "yz", "zero", True)]
    if tier != "quick":
        pl += [(t, n, a, d) for t in TRI for n in NORMALS for a in ("zero", "first", "free")
               for d in (False, True) if (t, n, a, d) not in pl]
    cs += [Case(f"plane-{t}-{n}-{a}-{d}", to_plane(t, n, a, d), "point and translation in [-5,5]")
           for t, n, a, d in pl]
    return cs
