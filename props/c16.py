"""Transparent polygons of the current model."""
from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.find_transparent import find_transparent
from building3d.sim.rays.simulation import Simulation

from props.c15 import Rect, facing
from symex.ctx import AND, Case, OR, truth

M = 1e-2
ASSUMPTIONS = ["polygons are axis-parallel rectangles; outlines are equal or differ by at least 0.01 somewhere",
               "no polygon faces two others (the code refuses such models)"]


def solid(h, name, rects):
    return Solid([Wall([Polygon(h.array(r.pts()), name=p)], name=w) for (w, p), r in rects.items()], name=name)


def expected(rects):
    """rects: {(zone, solid, wall, polygon): Rect}"""
    out = set()
    for a, p in rects.items():
        for b, q in rects.items():
            if a[0] == b[0] and a[1] != b[1] and truth(facing(p, q)):
                out.add("b/" + "/".join(a))
    return out


def offset(h, nm):
    """Exactly in place, or shifted."""
    y = h.real(nm, -1.5, 1.5)
    h.assume(OR(y == 0, y > M, y < -M))
    return y


class Model:
    def __init__(self, h, rects):
        self.rects = dict(rects)
        zs = {}
        for (z, s, w, p), r in rects.items():
            zs.setdefault(z, {}).setdefault(s, {})[(w, p)] = r
        self.b = Building([Zone([solid(h, s, rs) for s, rs in ss.items()], name=z) for z, ss in zs.items()], name="b")

    def add(self, h, z, s, rects):
        self.b.zones[z].add_solid(solid(h, s, rects))
        self.rects.update({(z, s) + k: r for k, r in rects.items()})


def check(h, m, numbers=False):
    want = expected(m.rects)
    h.check(set(find_transparent(m.b)) == want, "polygons facing one of another solid in the zone")
    if numbers:
        to_array_format(m.b)
        nums = set(Simulation.get_transparent_polygon_numbers(m.b)) - {-1}
        h.check(nums == {m.b.get(p).num for p in want}, "their numbers")


W = ("w", "p")


def start(h, kind, y):
    a = Rect(1, 0, 1, 0, 1, True)
    b = Rect(1, y, y + 1, 0, 1, h.flag("same_normal") if kind == "normals" else False)
    if kind == "same-solid":
        return {("z", "s") + W: a, ("z", "s", "v", "p"): b, ("z", "s1") + W: Rect(4, 0, 1, 0, 1, True)}
    if kind == "zones":
        return {("z", "s") + W: a, ("z1", "s") + W: b, ("z1", "s1") + W: Rect(4, 0, 1, 0, 1, True)}
    if kind == "apart":
        x = h.real("x", 0.5, 1.5)
        h.assume(OR(x == 1, x > 1 + M, x < 1 - M))
        return {("z", "s") + W: a, ("z", "s1") + W: Rect(x, 0, 1, 0, 1, False)}
    return {("z", "s") + W: a, ("z", "s1") + W: b}


def one(kind):
    def fn(h):
        check(h, Model(h, start(h, kind, 0 if kind == "apart" else offset(h, "y"))), True)
    return fn


def history(ops):
    """Calls interleaved with changes of the model and other buildings of the same name."""
    def fn(h):
        y = offset(h, "y")
        h.assume(OR(y == 0.5, y > 0.5 + M, y < 0.5 - M))
        m = Model(h, start(h, "pair", y))
        check(h, m)
        for i in range(ops):
            op = h.pick(f"op{i}", ("again", "add", "new", "other"))
            if op == "add":
                x = 4 + 2 * i
                m.add(h, "z", f"t{i}", {W: Rect(x, 0, 1, 0, 1, True)})
                check(h, m)
                m.add(h, "z", f"u{i}", {W: Rect(x, 0, 1, 0, 1, False)})
            elif op == "new":
                m = Model(h, start(h, "pair", 0.5 - y if i else -y))
            elif op == "other":
                check(h, Model(h, start(h, "zones", y)))
            check(h, m)
        check(h, m, True)
    return fn


def replaced(h):
    """A facing polygon is replaced by two parts and by a shifted one."""
    m = Model(h, start(h, "pair", 0))
    check(h, m)
    c = h.real("c", 0.1, 0.9)
    wall = m.b["z"]["s1"]["w"]
    old = m.rects.pop(("z", "s1") + W)
    parts = {"a": Rect(1, 0, c, 0, 1, False), "c": Rect(1, c, 1, 0, 1, False)}
    wall.replace_polygon("p", *[Polygon(h.array(r.pts()), name=n) for n, r in parts.items()])
    m.rects.update({("z", "s1", "w", n): r for n, r in parts.items()})
    check(h, m)
    if h.flag("both"):
        m.rects.pop(("z", "s") + W)
        ups = {n: Rect(1, r.b[0], r.b[1], 0, 1, True) for n, r in parts.items()}
        m.b["z"]["s"]["w"].replace_polygon("p", *[Polygon(h.array(r.pts()), name=n) for n, r in ups.items()])
        m.rects.update({("z", "s", "w", n): r for n, r in ups.items()})
    else:
        wall.replace_polygon("a", Polygon(h.array(old.pts()), name="p"))
        m.rects.pop(("z", "s1", "w", "a"))
        m.rects[("z", "s1") + W] = old
    check(h, m, True)


def boxes(h):
    """Boxes side by side: their common face is transparent when they are aligned."""
    y = offset(h, "y")
    two = h.flag("two_zones")
    a, b = box(1, 1, 1, (0, 0, 0), "s"), box(1, 1, 1, (1, y, 0), "s1")
    bdg = Building([Zone([a], name="z"), Zone([b], name="z1")] if two else [Zone([a, b], name="z")], name="b")
    got = set(find_transparent(bdg))
    want = {"b/z/s/wall_1/poly_1", "b/z/s1/wall_3/poly_3"}
    if got and not two:
        h.check(AND(y == 0, got == want), "the common face of aligned boxes")
    else:
        h.check(not got and (two or truth(y != 0)), "nothing else is transparent")


def cases(tier):
    cs = [Case("one-" + k, one(k), "all offsets of one polygon")
          for k in ("pair", "same-solid", "zones", "normals", "apart")]
    cs.append(Case("history", history(3 if tier == "thorough" else 2), "all sequences of operations, all offsets"))
    cs += [Case("replaced", replaced, "all positions of the cut"), Case("boxes", boxes, "all offsets of a box")]
    return cs
