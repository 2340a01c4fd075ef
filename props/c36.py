"""Vector helpers, centroids, equality of polygons, nested dictionaries and identifiers."""
import math

from building3d.geom.points import is_point_in_array
from building3d.geom.points import list_pts_to_array
from building3d.geom.points import new_point
from building3d.geom.polygon import Polygon
from building3d.geom.tetrahedrons import tetrahedron_centroid
from building3d.geom.triangles import triangle_centroid
from building3d.geom.vectors import angle
from building3d.geom.vectors import new_vector
from building3d.geom.vectors import normal
from building3d.random import random_id
from building3d.types.recursive_default_dict import recursive_default_dict
from building3d.types.recursive_default_dict import recursive_default_dict_to_dict

from props.common import PLANES, embed, raises
from symex.ctx import AND, NOT, OR, Case, cross, dot, near, near_vec, sub

M = 1e-2
ASSUMPTIONS = [
    f"three points are exactly collinear or span an area of at least {M}; points are equal or differ by"
    " 1e-3 in a coordinate",
    "angles are compared through their cosine (and lie in [0, pi])",
]


def normals(a, b, plane):
    """Third point free: unit, perpendicular, right-handed; nan for collinear points."""
    def fn(h):
        u, v = h.real("u", -8, 8), h.real("v", -8, 8)
        o, e1, e2 = PLANES[plane]
        A, B = ([o[k] + p[0] * e1[k] + p[1] * e2[k] for k in range(3)] for p in (a, b))
        C = [o[k] + u * e1[k] + v * e2[k] for k in range(3)]
        s = (b[0] - a[0]) * (v - a[1]) - (b[1] - a[1]) * (u - a[0])
        h.assume(OR(s == 0, s > M, s < -M))
        k = h.int("first", 0, 2)
        P = [A, B, C][k:] + [A, B, C][:k]
        n = normal(*[h.array(p) for p in P])
        if bool(s == 0):
            if not h.symbolic and not math.isnan(n[0]):
                return  # collinear only up to rounding
            h.check(all(isinstance(float(x), float) and math.isnan(float(x)) for x in n),
                    "no normal of collinear points")
            return
        ref = cross(e1, e2)
        ln = math.sqrt(dot(ref, ref))
        sg = 1 if bool(s > 0) else -1
        h.check(near_vec(n, [sg * x / ln for x in ref], 1e-6), "unit normal by the right-hand rule")
    return fn


def angles(a, axes):
    """Second vector free in the plane of the axes."""
    def fn(h):
        u, v = h.real("u", -4, 4), h.real("v", -4, 4)
        b = [u * axes[0][k] + v * axes[1][k] for k in range(3)]
        h.assume(dot(b, b) > M)
        r = angle(h.array(a), h.array(b))
        q = angle(h.array(b), h.array(a))
        c, s = cossin(h, r)
        d = dot(a, b)
        # c |a| |b| = a.b, by squares and signs
        h.check(near(c * c * dot(a, a) * dot(b, b), d * d, 1e-6), "cosine of the angle")
        h.check(OR(AND(c >= -1e-6, d >= -1e-5), AND(c <= 1e-6, d <= 1e-5)), "acute or obtuse")
        h.check(s >= -1e-9, "between 0 and pi")
        h.check(near(cossin(h, q)[0], c, 1e-9), "same angle in either order")
    return fn


def cossin(h, phi):
    if h.symbolic:
        from symex import core
        return core.scos(phi), core.ssin(phi)
    return math.cos(phi), math.sin(phi)


def straight(h):
    """Parallel and perpendicular vectors of any length."""
    a = h.pick("axis", [(1.0, 0, 0), (0, -2.0, 0), (0, 3.0, 4.0), (2.0, -1.0, 2.0)])
    p = h.pick("perp", [0, 1])
    w = cross(a, (0.0, 0, 1.0)) if p and abs(a[0]) + abs(a[1]) > 0 else cross(a, (1.0, 1.0, 3.0))
    k = h.real("k", 0.01, 100)
    h.cover("angles")
    h.close(angle(h.array(a), h.array([k * x for x in a])), 0, 1e-6, "parallel")
    h.close(angle(h.array(a), h.array([-k * x for x in a])), math.pi, 1e-6, "opposite")
    h.close(angle(h.array(a), h.array([k * x for x in w])), math.pi / 2, 1e-6, "perpendicular")


def centroids(h):
    p = [h.reals(c, 3, -100, 100) for c in "abcd"]
    q = [h.array(x) for x in p]
    t = triangle_centroid(*q[:3])
    h.check(near_vec([3 * x for x in t], [p[0][k] + p[1][k] + p[2][k] for k in range(3)], 1e-6),
            "centroid of a triangle")
    t = tetrahedron_centroid(*q)
    h.check(near_vec([4 * x for x in t], [p[0][k] + p[1][k] + p[2][k] + p[3][k] for k in range(3)], 1e-6),
            "centroid of a tetrahedron")
    h.check(AND(*[q[i][k] == p[i][k] for i in range(4) for k in range(3)]), "arguments are not modified")
    for mk in (new_point, new_vector):
        v = mk(*p[0])
        h.check(tuple(v.shape) == (3,) and AND(*[v[k] == p[0][k] for k in range(3)]), "components in order")
    arr = list_pts_to_array([q[0], q[1], q[2]])
    h.check(tuple(arr.shape) == (3, 3) and AND(*[arr[i][k] == p[i][k] for i in range(3) for k in range(3)]),
            "points in order")


def in_array(n):
    """The tested point differs in one coordinate (or in none) from each point of the array."""
    def fn(h):
        t = h.reals("t", 3, -4, 4)
        arr, same = [], []
        for i in range(n):
            k = h.int(f"axis{i}", 0, 3)
            p = list(t)
            if k < 3:
                d = h.real(f"d{i}", -1, 1)
                h.assume(OR(d > 1e-3, d < -1e-3))
                p[k] = p[k] + d
            same.append(k == 3)
            arr.append(p)
        r = is_point_in_array(h.array(t), h.array(arr))
        h.check(bool(r) == any(same), "in the array if and only if equal to one of its points")
    return fn


SHAPES = {"tri": [(0, 0), (2, 0), (1, 2)], "sq": [(0, 0), (2, 0), (2, 2), (0, 2)],
          "pent": [(0, 0), (2, 0), (3, 2), (1, 3), (-1, 2)]}


def equality(s1, s2, plane):
    """Equal if and only if the points are the same in the same order, whatever the names."""
    def fn(h):
        d = h.real("d", -3, 3)
        h.assume(OR(d == 0, d > M, d < -M))
        a = embed(plane, SHAPES[s1])
        b = embed(plane, SHAPES[s2])
        k = h.int("axis", 0, 2)
        r = h.int("start", 0, len(b) - 1)
        b = b[r:] + b[:r]
        b = [[x + d if i == k else x for i, x in enumerate(p)] for p in b]
        p = Polygon(h.array(a), name="p")
        q = Polygon(h.array(b), name=h.pick("name", ["p", "q"]))
        same = s1 == s2 and r == 0 and bool(d == 0)
        h.check(bool(p == q) == same, "equal if and only if the points are equal")
        h.check(bool(q == p) == same, "in either order")
        h.check(bool(p != q) == (not same), "different otherwise")
        h.check(bool(p == p), "equal to itself")
    return fn


def other_things(h):
    p = Polygon(h.array(embed("xy", SHAPES["sq"])), name="p")
    x = h.pick("other", ["p", None, 3, (1, 2)])
    h.cover("compared")
    h.check(not (p == x), "a polygon is not equal to other things")


def nested(n):
    """Any nesting of up to three keys."""
    def fn(h):
        keys = ["a", "b"]
        d = recursive_default_dict()
        want = {}
        for i in range(n):
            depth = h.int(f"depth{i}", 1, 3)
            path = [h.pick(f"k{i}{j}", keys) for j in range(depth)]
            v = h.real(f"v{i}", -5, 5)
            x, y, ok = d, want, True
            for c in path[:-1]:
                if c in y and not isinstance(y[c], dict):
                    ok = False
                    break
                x, y = x[c], y.setdefault(c, {})
            if ok:
                x[path[-1]] = v
                y[path[-1]] = v
        h.cover("filled")
        r = recursive_default_dict_to_dict(d)

        def same(a, b):
            if isinstance(b, dict):
                return type(a) is dict and list(a) == list(b) and all(bool(same(a[k], b[k])) for k in b)
            return a == b
        h.check(bool(same(r, want)), "ordinary dictionaries with the same contents")
    return fn


def identifiers(h):
    n = h.int("size", -2, 40)
    h.cover("called")
    if n < 1 or n > 32:
        h.check(raises(lambda: random_id(n), ValueError) is not None, "sizes without identifiers are refused")
        return
    a = random_id(n)
    h.check(len(a) == n and "-" not in a, "identifier of the given length")
    b = random_id()
    h.check(len(b) == 36 and b != random_id(), "full identifiers differ")


def cases(tier):
    cs = [Case(f"normal-{i}-{p}", normals(a, b, p), "third point in [-8,8]^2 of the plane, any order")
          for i, (a, b, p) in enumerate([((0, 0), (2, 0), "xy"), ((1, -1), (3, 2), "yz"), ((-2, 1), (0.5, 3), "tilt"),
                                         ((1, 1), (-3, 1), "zx")])]
    cs += [Case(f"angle-{i}", angles(a, ax), "second vector in [-4,4]^2 of a plane")
           for i, (a, ax) in enumerate([((1.0, 0, 0), ((1, 0, 0), (0, 1, 0))), ((0, 3.0, 4.0), ((0, 1, 0), (0, 0, 1))),
                                        ((0, 0, -2.0), ((1, 0, 1), (0, 1, 0))),
                                        ((1.0, 2.0, -2.0), ((1, 0, 0), (0, 1, 1)))])]
    cs += [Case("angle-straight", straight, "multiples 0.01 to 100"),
           Case("centroids", centroids, "all coordinates"),
           Case("in-array-2", in_array(2), "two points"), Case("in-array-3", in_array(3), "three points")]
    cs += [Case(f"equal-{a}-{b}-{p}", equality(a, b, p), "moved along an axis, any starting corner")
           for a, b, p in (("sq", "sq", "xy"), ("tri", "tri", "yz"), ("tri", "sq", "xy"), ("pent", "tri", "zx"))]
    cs += [Case("equal-others", other_things, "strings, None, numbers, tuples"),
           Case("nested-2", nested(2), "two entries, up to three levels"),
           Case("identifiers", identifiers, "sizes -2 to 40")]
    if tier == "thorough":
        cs += [Case("nested-3", nested(3), "three entries, up to three levels"),
               Case("in-array-4", in_array(4), "four points"),
               Case("equal-pent-pent-tilt", equality("pent", "pent", "xy"), "moved along an axis, any starting corner")]
    return cs
