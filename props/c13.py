"""Predefined solids: box and extruded floor plan."""
import math

from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan

from props.common import area2, raises, rot
from symex.ctx import AND, Case, add, cross, dot, near, near_vec, sub, truth

TOL = 1e-6
ASSUMPTIONS = ["plans are simple polygons of the listed families, with one free length",
               "a closed, consistently oriented surface whose signed volume is positive has all"
               " its normals pointing outwards"]


def find(v, corners):
    for i, c in enumerate(corners):
        if truth(near_vec(v, c, TOL)):
            return i
    return None


def area_vec(pts):
    t = [0, 0, 0]
    n = len(pts)
    for i in range(1, n - 1):
        t = add(t, cross(sub(pts[i], pts[0]), sub(pts[i + 1], pts[0])))
    return t


def surface(h, solid, corners, vol, faces):
    """corners: expected corners; faces: {(wall, polygon): set of corner numbers}."""
    count = {}
    got = {}
    six = 0
    for wn, w in solid.children.items():
        h.check(w.name == wn and w.parent is solid, "wall name")
        for pn, p in w.children.items():
            h.check(p.name == pn and p.parent is w, "polygon name")
            idx = [find(v, corners) for v in p.pts]
            h.check(None not in idx, "polygon corners are the requested ones")
            got[(wn, pn)] = frozenset(idx)
            n = len(idx)
            for i in range(n):
                e = (idx[i], idx[(i + 1) % n])
                count[e] = count.get(e, 0) + 1
            pts = [corners[i] for i in idx]
            av = area_vec(pts)
            h.check(dot(av, p.vn) > 0, "normal agrees with the winding")
            h.check(near_vec(cross(av, p.vn), [0, 0, 0], 1e-5), "normal is perpendicular")
            six = six + dot(av, pts[0])
    h.check(all(v == 1 and count.get(e[::-1]) == 1 for e, v in count.items()),
            "every edge belongs to two polygons, in opposite directions")
    h.check(got == faces, "faces and names")
    h.close(six, vol * 6, 1e-5, "normals point outwards")


def boxes(free, moved):
    def fn(h):
        d = [h.real(n, 0.125, 9) if n in free else v for n, v in zip("xyz", (2.0, 3.0, 1.5))]
        m = [h.real("m" + n, -30, 30) for n in "xyz"] if moved else [0.0, 0.0, 0.0]
        s = box(d[0], d[1], d[2], tuple(m), name="s") if moved else box(*d, name="s")
        h.check(s.name == "s", "name of the solid")
        c = [[m[k] + b[k] * d[k] for k in range(3)]
             for b in [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)]]

        def sel(k, v):
            return frozenset(4 * x + 2 * y + z for x in (0, 1) for y in (0, 1) for z in (0, 1)
                             if (x, y, z)[k] == v)
        surface(h, s, c, d[0] * d[1] * d[2],
                {("floor", "floor"): sel(2, 0), ("ceiling", "ceiling"): sel(2, 1),
                 ("wall_0", "poly_0"): sel(1, 0), ("wall_1", "poly_1"): sel(0, 1),
                 ("wall_2", "poly_2"): sel(1, 1), ("wall_3", "poly_3"): sel(0, 0)})
    return fn


PLANS = {
    "l": lambda a: [(0, 0), (a + 1, 0), (a + 1, 1), (1, 1), (1, 3), (0, 3)],
    "tri": lambda a: [(0, 0), (a, 0), (1, 3)],
    "quad": lambda a: [(-1, 0), (4, 0), (5, a), (0, 3)],
    "arrow": lambda a: [(0, 0), (a + 1, 1), (0, 2), (1, 1)],
    "u": lambda a: [(0, 0), (3, 0), (3, a + 1), (2, a + 1), (2, 1), (1, 1), (1, 4), (0, 4)],
    "collin": lambda a: [(0, 0), (a, 0), (a + 1, 0), (a + 1, 2), (0, 2)],
}


def plans(plan, flip, angle, names, shift=None, side=None):
    def fn(h):
        a = side or h.real("a", 0.25, 8)
        hh = h.real("h", 0.25, 8)
        uv = PLANS[plan](a)
        n = len(uv)
        uv = rot(uv, h.int("shift", 0, n - 1) if shift is None else shift)
        if flip:
            uv = uv[::-1]
        # translation between exactly none and clearly some
        t = h.pick("moved", [None, "z", "xyz"])
        m = [0.0, 0.0, 0.0]
        if t:
            m[2] = h.real("mz", -30, 30)
        if t == "xyz":
            m[0], m[1] = h.real("mx", 0.01, 30), h.real("my", -30, 30)
        if t == "z":
            h.assume((m[2] > 0.01) if h.pick("up", [0, 1]) else (m[2] < -0.01))
        kw = {}
        wn = [f"wall-{i}" for i in range(n)]
        fl, ce = "floor", "ceiling"
        if names:
            wn = [f"w{chr(97 + i)}" for i in range(n)]
            fl, ce = "f", "c"
            kw = dict(wall_names=list(wn), floor_name=fl, ceiling_name=ce)
        c, s = 1.0, 0.0
        if angle == "any":
            phi = h.angle("phi")
            c, s = cossin(h, phi)
            kw["rot_angle"] = phi
        elif angle is not None:
            kw["rot_angle"] = angle
            c, s = math.cos(angle), math.sin(angle)
        if t:
            kw["translate"] = tuple(m)
        sld = floor_plan(uv, hh, name="s", **kw)
        h.check(sld.name == "s", "name of the solid")
        xy = [(c * p[0] - s * p[1], s * p[0] + c * p[1]) for p in uv]
        cs = [[p[0] + m[0], p[1] + m[1], m[2] + z] for z in (0, hh) for p in xy]
        faces = {(wn[i], wn[i]): frozenset([i, (i + 1) % n, n + i, n + (i + 1) % n])
                 for i in range(n)}
        faces[(fl, fl)] = frozenset(range(n))
        faces[(ce, ce)] = frozenset(range(n, 2 * n))
        surface(h, sld, cs, area2(PLANS[plan](a)) * 0.5 * hh, faces)
    return fn


def cossin(h, phi):
    if h.symbolic:
        from symex import core
        return core.scos(phi), core.ssin(phi)
    return math.cos(phi), math.sin(phi)


def bad_names(h):
    """Wall names must be unique and as many as the points."""
    k = [h.int(f"n{i}", 0, 2) for i in range(3)]
    cnt = h.int("count", 2, 4)
    names = [f"n{x}" for x in (k + [3])[:cnt]]
    plan = [(0, 0), (2, 0), (0, 2)]
    r = raises(lambda: floor_plan(plan, 1.0, wall_names=list(names)), ValueError)
    bad = cnt != 3 or len(set(names)) < 3
    h.check((r is not None) == bad, "wall names are unique and one per wall")


def cases(tier):
    q = [("l", False, None, False, 0), ("l", True, None, True, 2), ("l", False, None, True, 3),
         ("quad", False, None, False), ("tri", True, None, True),
         ("arrow", False, None, False, 3), ("arrow", True, None, False, 0),
         ("tri", False, "any", True, 0, 4), ("arrow", False, "any", True, 1, 2), ("quad", True, math.pi / 2, True, 0),
         ("collin", False, None, False, 1)]
    if tier != "quick":
        q += [(p, f, None, f) for p in PLANS for f in (False, True)]
        q += [("quad", False, "any", False, 0, 2),
              ("l", False, 0.75, False, 0), ("quad", True, "any", False, 0, 2)]
    cs = [Case("box-" + (f or "fixed"), boxes(f, m), "dimension in [0.125,9], position in [-30,30]^3")
          for f, m in (("x", True), ("xyz", False), ("", True))
          + ((("y", True), ("z", True), ("xyz", True)) if tier != "quick" else ())]
    for a in q:
        cs.append(Case("plan-" + "-".join(str(x) for x in a), plans(*a),
                       "length and height in [0.25,8], position in [-30,30]^3"))
    cs.append(Case("names", bad_names, "two to four names, all coincidences"))
    return cs
