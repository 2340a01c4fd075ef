"""Volumes and areas."""
import itertools

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.tetrahedrons import tetrahedron_centroid, tetrahedron_volume
from building3d.geom.triangles import triangle_area
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from props.common import area2
from symex.ctx import AND, OR, Case, cross, dot, near, near_vec, sub

TOL = 1e-6
ASSUMPTIONS = [f"volumes and areas are compared within {TOL}",
               "boxes have dimensions in [0.25, 8]"]


def tetra(h):
    p = [[0.5, -1.0, 2.0], h.reals("p", 3, -8, 8), [1.0, 3.0, -2.0], h.reals("q", 3, -8, 8)]
    det = dot(sub(p[1], p[0]), cross(sub(p[2], p[0]), sub(p[3], p[0])))
    vs = []
    for k, o in enumerate(itertools.permutations(range(4))):
        vs.append(tetrahedron_volume(*[h.array(p[i]) for i in o]))
    for v in vs:
        h.check(v >= 0, "volume is not negative")
        h.check(OR(near(v * 6, det, TOL), near(v * 6, -det, TOL)), "volume of the tetrahedron")
    c = tetrahedron_centroid(*[h.array(x) for x in p])
    h.check(near_vec(c, [(p[0][k] + p[1][k] + p[2][k] + p[3][k]) / 4 for k in range(3)], TOL),
            "centroid of the tetrahedron")


def small(h):
    """Small and flat figures: relative accuracy."""
    s = h.real("s", 0.001, 0.01)
    a = triangle_area(h.array([0, 0, 0]), h.array([s, 0, 0]), h.array([0, s, 0]))
    h.close(a, s * s * 0.5, 1e-9, "area of a small triangle")
    v = tetrahedron_volume(h.array([0, 0, 0]), h.array([s, 0, 0]), h.array([0, s, 0]),
                           h.array([0, 0, s]))
    h.close(v, s * s * s / 6, 1e-10, "volume of a small tetrahedron")
    p = h.real("p", -8, 8)
    v = tetrahedron_volume(h.array([0, 0, 0]), h.array([s, 0, 0]), h.array([0, 1, 0]),
                           h.array([p, p, 0]))
    h.close(v, 0.0, 1e-9, "volume of a flat tetrahedron")
    a = triangle_area(h.array([0, 0, 0]), h.array([p, 0, p]), h.array([2 * p, 0, 2 * p]))
    h.close(a, 0.0, 1e-9, "area of a degenerate triangle")


def triangle(h):
    p = [h.reals("p", 3, -8, 8), h.reals("q", 3, -8, 8), h.reals("r", 3, -8, 8)]
    c = cross(sub(p[1], p[0]), sub(p[2], p[0]))
    for o in itertools.permutations(range(3)):
        a = triangle_area(*[h.array(p[i]) for i in o])
        h.check(a >= 0, "area is not negative")
        h.close(a * a * 4, dot(c, c), TOL, "area of the triangle")


def boxes(dims, free):
    """Box with symbolic position; free: symbolic dimensions among x, y, z."""
    def fn(h):
        d = [h.real(n, 0.25, 8) if n in free else dims[k] for k, n in enumerate("xyz")]
        m = [h.real("m" + n, -20, 20) for n in "xyz"]
        s = box(d[0], d[1], d[2], (m[0], m[1], m[2]), name="s")
        h.close(s.volume, d[0] * d[1] * d[2], TOL, "volume of the box")
    return fn


PLANS = {
    "l": lambda a: [(0, 0), (a + 1, 0), (a + 1, 1), (1, 1), (1, 3), (0, 3)],
    "tri": lambda a: [(0, 0), (a, 0), (1, 3)],
    "quad": lambda a: [(0, 0), (4, 0), (5, a), (0, 3)],
    "u": lambda a: [(0, 0), (3, 0), (3, a + 1), (2, a + 1), (2, 1), (1, 1), (1, 4), (0, 4)],
}


def prism(plan, xy):
    def fn(h):
        a = h.real("a", 0.25, 8)
        hh = h.real("h", 0.25, 8)
        uv = PLANS[plan](a)
        mz = h.real("mz", -20, 20)
        m = (xy[0], xy[1], mz) if xy else (h.real("mx", -20, 20), h.real("my", -20, 20), 1.0)
        s = floor_plan(uv, hh, translate=m, name="s")
        h.close(s.volume, area2(uv) * hh * 0.5, TOL, "volume of the prism")
    return fn


def pyramid(h):
    """Tetrahedron with a free apex, outward oriented faces, anywhere."""
    t = [h.real("t" + n, -9, 9) for n in "xyz"]
    a = h.real("apex", 0.25, 8)
    p = [[0, 0, 0], [3.0, 0, 0], [0, 4.0, 0], [1.0, 1.0, a]]
    p = [[q[k] + t[k] for k in range(3)] for q in p]
    f = [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]
    s = Solid([Wall([Polygon(h.array([p[i] for i in q]), name="p")], name=f"w{n}")
               for n, q in enumerate(f)], name="s")
    h.close(s.volume, a * 2, TOL, "volume of the pyramid")


def sums(h):
    """Volumes of zones and buildings add up."""
    x = [h.real(f"x{i}", 0.5, 4) for i in range(4)]
    n0, n1 = h.int("n0", 0, 2), h.int("n1", 0, 2)
    s = [box(x[i], 1.0, 1.0, (10.0 * i, 1.0, 1.0), name=f"s{i}") for i in range(4)]
    z0, z1 = Zone(s[:n0], name="z0"), Zone(s[2:2 + n1], name="z1")
    b = Building([z0, z1], name="b")
    v0, v1 = sum(x[:n0], 0.0), sum(x[2:2 + n1], 0.0)
    h.close(z0.volume(), v0, TOL, "volume of a zone")
    h.close(z1.volume(), v1, TOL, "volume of a zone")
    h.close(b.volume(), v0 + v1, TOL, "volume of a building")


def cases(tier):
    cs = [Case("tetra", tetra, "two free vertices in [-8,8]^3, all orders"),
          Case("triangle", triangle, "all vertices in [-8,8]^3, all orders"),
          Case("small", small, "sides from 0.001"),
          Case("box", boxes((2, 3, 1), ""), "position in [-20,20]^3"),
          Case("box-x", boxes((2, 3, 1), "x"), "x in [0.25,8], position in [-20,20]^3"),
          Case("prism-l", prism("l", (2.0, -1.0)), "length, height, elevation"),
          Case("prism-quad", prism("quad", None), "length, height, position in the plan"),
          Case("pyramid", pyramid, "apex height in [0.25,8], position in [-9,9]^3"),
          Case("sums", sums, "two zones of up to two boxes")]
    if tier != "quick":
        cs += [Case("box-y", boxes((2, 3, 1), "y"), "as box-x"),
               Case("box-z", boxes((2, 3, 1), "z"), "as box-x"),
               Case("box-xyz", boxes((2, 3, 1), "xyz"), "dimensions and position"),
               Case("prism-u", prism("u", (-1.5, -2.0)), "as prism-l"),
               Case("prism-l-xy", prism("l", None), "as prism-quad"),
               Case("prism-tri", prism("tri", None), "as prism-quad")]
    return cs
