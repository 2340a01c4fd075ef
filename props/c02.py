"""Area, centroid, normal, plane and flip of polygons."""
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.area import polygon_area
from building3d.geom.polygon.centroid import polygon_centroid
from building3d.geom.polygon.plane import plane_coefficients, projection_coefficients
from building3d.geom.triangles import triangle_centroid
from building3d.geom.vectors import normal

from props.common import PLANES, area2, edges2, plane_normal, rot
from symex.ctx import AND, Case, cross, dot, near, near_vec, sub

TOL = 1e-6
ASSUMPTIONS = [
    f"values are compared within {TOL}",
    "polygons of the listed families: one side length and the translation are symbolic",
]

# families of one length a >= 0.25: (vertices, indices of convex corners)
FAMS = {
    "rect": lambda a: ([(0, 0), (a, 0), (a, 2), (0, 2)], (0, 1, 2, 3)),
    "tri": lambda a: ([(0, 0), (a, 0), (1, 3)], (0, 1, 2)),
    "l": lambda a: ([(0, 0), (a + 1, 0), (a + 1, 1), (1, 1), (1, 3), (0, 3)], (0, 1, 2, 4, 5)),
    "arrow": lambda a: ([(0, 0), (a + 1, 1), (0, 2), (1, 1)], (0, 1, 2)),
    "u": lambda a: ([(0, 0), (3, 0), (3, a + 1), (2, a + 1), (2, 1), (1, 1), (1, 4), (0, 4)],
                    (0, 1, 2, 3, 6, 7)),
    "collin": lambda a: ([(0, 0), (a, 0), (a + 1, 0), (a + 1, 2), (0, 2)], (0, 2, 3, 4)),
    "trapez": lambda a: ([(0, 0), (4, 0), (3, a), (1, a)], (0, 1, 2, 3)),
}


def centroid2(uv):
    """(6*area*cx, 6*area*cy, 2*area)"""
    sx = sy = 0
    for p, q in edges2(uv):
        w = p[0] * q[1] - q[0] * p[1]
        sx, sy = sx + (p[0] + q[0]) * w, sy + (p[1] + q[1]) * w
    return sx, sy, area2(uv)


def props(fam, plane, flip, shift=None, move=True, full=True):
    def fn(h):
        a = h.real("a", 0.25, 8)
        uv, convex = FAMS[fam](a)
        s = h.pick("shift", list(convex)) if shift is None else shift
        o, e1, e2 = PLANES[plane]
        t = [h.real(f"t{k}", -20, 20) for k in range(3)] if move else [0.0, 0.0, 0.0]

        def place(p):
            return [o[k] + t[k] + p[0] * e1[k] + p[1] * e2[k] for k in range(3)]
        ring = rot(uv, s)
        if flip:
            ring = [ring[0]] + ring[1:][::-1]
        pts = [place(p) for p in ring]
        nrm = plane_normal(plane)
        ln = sum(x * x for x in nrm) ** 0.5
        sg = -1 if flip else 1
        unit = [sg * x / ln for x in nrm]
        poly = Polygon(h.array(pts), name="p")
        h.check(near_vec(poly.vn, unit, TOL), "unit normal by the right-hand rule")
        sx, sy, a2 = centroid2(uv)
        want_area = a2 * 0.5 * ln
        h.close(poly.area, want_area, TOL, "area")
        h.close(polygon_area(poly.pts, poly.vn), want_area, TOL, "area")
        # centroid: a2*3*ctr = s in plane coordinates
        for k in range(3):
            h.close((poly.ctr[k] - o[k] - t[k]) * a2 * 3, sx * e1[k] + sy * e2[k], TOL, "centroid")
        pc = poly.plane_coefficients
        h.check(near_vec(pc[:3], unit, TOL), "plane coefficients are the normal")
        for p in pts:
            h.close(dot(pc[:3], p) + pc[3], 0.0, TOL, "vertices satisfy the plane equation")
        if full:
            f = poly.flip("q")
            h.check(f.name == "q" and poly.name == "p", "names")
            h.check(near_vec(f.vn, [-x for x in unit], TOL), "flipped normal is opposite")
            h.close(f.area, want_area, TOL, "flipped area")
            h.check(near_vec(f.plane_coefficients, [-x for x in pc], TOL), "flipped plane")
            for k in range(3):
                h.close((f.ctr[k] - o[k] - t[k]) * a2 * 3, sx * e1[k] + sy * e2[k], TOL,
                        "flipped centroid")
            h.check(near_vec(poly.vn, unit, TOL) and len(poly.pts) == len(pts), "original is kept")
    return fn


def interior(fam, plane):
    """get_some_interior_point is strictly inside."""
    def fn(h):
        a = h.real("a", 0.25, 8)
        uv, convex = FAMS[fam](a)
        o, e1, e2 = PLANES[plane]
        s = h.pick("shift", list(convex))
        pts = [[o[k] + p[0] * e1[k] + p[1] * e2[k] for k in range(3)] for p in rot(uv, s)]
        poly = Polygon(h.array(pts), name="p")
        c = poly.get_some_interior_point()
        h.check(poly.is_point_inside(c, boundary_in=False), "interior point is inside")
        i, j, k = (int(x) for x in poly.tri[0])
        h.check(near_vec(c, [(poly.pts[i][m] + poly.pts[j][m] + poly.pts[k][m]) / 3
                             for m in range(3)], TOL), "centre of the first triangle")
    return fn


def functions(h):
    """normal, triangle_centroid, plane of three points."""
    p = [h.pick("p", [[2.0, 1, 0.5], [0, -2.0, 3], [1.0, 4, 1]]), h.reals("r", 3, -4, 4)]
    q = [1.0, -2.0, 0.5]
    c = cross(sub(p[0], q), sub(p[1], q))
    l2 = dot(c, c)
    h.assume(l2 > 0.01)
    n = normal(h.array(q), h.array(p[0]), h.array(p[1]))
    h.close(dot(n, n), 1.0, TOL, "unit length")
    h.close(dot(n, sub(p[0], q)), 0.0, TOL, "perpendicular to the first side")
    h.close(dot(n, sub(p[1], q)), 0.0, TOL, "perpendicular to the second side")
    h.check(dot(n, c) > 0, "right-hand rule")
    m = triangle_centroid(h.array(q), h.array(p[0]), h.array(p[1]))
    h.check(near_vec(m, [(q[k] + p[0][k] + p[1][k]) / 3 for k in range(3)], TOL), "mean")


def no_normal(h):
    """Collinear points have no normal."""
    d = h.reals("d", 3, -4, 4)
    t = h.real("t", -3, 3)
    q = [1.0, -2.0, 0.5]
    n = normal(h.array(q), h.array([q[k] + d[k] for k in range(3)]),
               h.array([q[k] + d[k] * t for k in range(3)]))
    h.check(all(isinstance(float(x), float) and float(x) != float(x) for x in n), "no normal")


def projection(h):
    v = h.pick("v", [(1.0, 0, 0), (0, 0, -1.0), (0.6, 0, 0.8)])
    p, r = h.reals("p", 3, -9, 9), h.reals("r", 3, -9, 9)
    a, b, c, d = projection_coefficients(h.array(p), h.array(v))
    h.check(near_vec([a, b, c], v, TOL), "normal is kept")
    # distance of r from the plane through p
    h.close(a * r[0] + b * r[1] + c * r[2] + d, dot(v, sub(r, p)), TOL, "plane through the point")


def cases(tier):
    q = [("rect", "xy", False), ("rect", "skew", True), ("tri", "tilt", False),
         ("l", "xy", False), ("l", "yz", True), ("arrow", "xy", False), ("u", "xy", True, 6),
         ("collin", "zx", False), ("trapez", "tilt", True)]
    if tier != "quick":
        q += [(f, p, fl) for f in FAMS for p in PLANES for fl in (False, True)
              if (f, p, fl) not in q]
    cs = [Case("-".join(map(str, a)), props(*a),
               "side in [0.25,8], translation in [-20,20]^3, any convex start") for a in q]
    cs += [Case(f"interior-{f}", interior(f, p), "side in [0.25,8]")
           for f, p in (("l", "xy"), ("arrow", "tilt"), ("u", "xy"))]
    cs += [Case("functions", functions, "one point in [-4,4]^3"),
           Case("no-normal", no_normal, "collinear points"),
           Case("projection", projection, "points in [-9,9]^3")]
    return cs
