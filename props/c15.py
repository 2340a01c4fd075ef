"""Adjacency graphs of a building and adjacency of solids."""
from building3d.geom.building import Building
from building3d.geom.building.graph import graph_polygon, graph_solid, graph_wall, graph_zone
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.solid.box import box
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from symex.ctx import AND, Case, NOT, OR, truth

M = 1e-2
ASSUMPTIONS = [
    f"polygons are axis-parallel rectangles; coordinates of different polygons agree or differ by at least {M}",
    "touching polygons: what Polygon.is_touching_polygon says (decided by C09); facing and crossing:"
    " computed independently from the rectangles",
]


class Rect:
    """Rectangle [y0, y1] x [z0, z1] in the plane x, normal along +x or -x."""

    def __init__(self, x, y0, y1, z0, z1, up):
        self.x, self.b, self.up = x, (y0, y1, z0, z1), up

    def pts(self):
        y0, y1, z0, z1 = self.b
        p = [[self.x, y0, z0], [self.x, y1, z0], [self.x, y1, z1], [self.x, y0, z1]]
        return p if self.up else p[::-1]


def same(p, q):
    return AND(p.x == q.x, *[a == b for a, b in zip(p.b, q.b)])


def overlap(p, q):
    return AND(p.x == q.x, p.b[0] < q.b[1], q.b[0] < p.b[1], p.b[2] < q.b[3], q.b[2] < p.b[3])


def within(p, q):
    """p strictly inside q"""
    return AND(p.b[0] > q.b[0], p.b[1] < q.b[1], p.b[2] > q.b[2], p.b[3] < q.b[3])


def facing(p, q):
    return AND(p.up != q.up, same(p, q))


def crossing(p, q):
    return AND(overlap(p, q), NOT(same(p, q)), NOT(within(p, q)), NOT(within(q, p)))


def apart(h, a, b):
    h.assume(OR(a == b, a - b > M, b - a > M))


# path: rectangle in terms of the symbolic offsets
def layout(h, kind):
    y = h.real("y", -1.5, 1.5)
    for c in (-1, -0.75, -0.25, 0, 0.25, 0.75, 1) if kind == "inner" else (-1, 0, 1):
        apart(h, y, c)
    if kind == "pair":
        return {"z/s/w/p": Rect(1, 0, 1, 0, 1, True), "z/s1/w/p": Rect(1, y, y + 1, 0, 1, False)}
    if kind == "zones":  # names repeat on purpose
        return {"z/s/w/p": Rect(1, 0, 1, 0, 1, True), "z/s/w1/p": Rect(1, 1, 2, 0, 1, True),
                "z1/s/w/p": Rect(1, y, y + 1, 0, 1, False), "z1/s1/w/p": Rect(3, 0, 1, 0, 1, False)}
    if kind == "walls":
        z = h.pick("z", (0, 0.5, 2))
        return {"z/s/w/p": Rect(1, 0, 1, 0, 1, True), "z/s/w/q": Rect(1, 0, 1, 1, 2, True),
                "z/s/v/p": Rect(0, 0, 1, 0, 1, False), "z/s1/w/p": Rect(1, y, y + 1, z, z + 1, False)}
    if kind == "middle":  # a solid between two others
        return {"z/s/w/p": Rect(1, 0, 1, 0, 1, True), "z/s/v/p": Rect(0, 0, 1, 0, 1, False),
                "z/s1/w/p": Rect(1, y, y + 1, 0, 1, False), "z1/s/w/p": Rect(0, 0, 1, 0, 1, True)}
    # polygons of one solid facing each other, and a smaller polygon
    return {"z/s/w/p": Rect(1, 0, 1, 0, 1, True), "z/s/v/p": Rect(1, y, y + 1, 0, 1, False),
            "z/s1/w/p": Rect(1, 0.25, 0.75, h.pick("z", (0, 0.25)), 0.75, False)}


def build(h, rects):
    zones = {}
    for path, r in rects.items():
        z, s, w, p = path.split("/")
        zones.setdefault(z, {}).setdefault(s, {}).setdefault(w, []).append(Polygon(h.array(r.pts()), name=p))
    return Building([Zone([Solid([Wall(ps, name=w) for w, ps in ws.items()], name=s)
                           for s, ws in ss.items()], name=z) for z, ss in zones.items()], name="b")


def up(path, n):
    return "/".join(path.split("/")[:-n]) if n else path


def graphs(kind, flags, through):
    def fn(h):
        rects = layout(h, kind)
        b = build(h, rects)
        f, o, t = h.pick("flags", flags)
        paths = ["b/" + p for p in rects]
        edges = set()
        for i, p in enumerate(rects):
            for q in list(rects)[i + 1:]:
                rel = False
                if f:
                    rel = rel or truth(facing(rects[p], rects[q]))
                if o:
                    rel = rel or truth(crossing(rects[p], rects[q]))
                if t:
                    rel = rel or bool(b.get("b/" + p).is_touching_polygon(b.get("b/" + q)))
                if rel:
                    edges |= {("b/" + p, "b/" + q), ("b/" + q, "b/" + p)}
        if through == "functions":
            gs = [graph_polygon(b, f, o, t), graph_wall(b, f, o, t), graph_solid(b, f, o, t), graph_zone(b, f, o, t)]
        else:
            gs = [b.get_graph(new=n == 0, level=lv, facing=f, overlapping=o, touching=t)
                  for n, lv in enumerate(("polygon", "wall", "solid", "zone"))]
        for n, g in enumerate(gs):
            want = {up(p, n): set() for p in paths}
            for p, q in edges:
                if up(p, n) != up(q, n):
                    want[up(p, n)].add(up(q, n))
            h.check(set(g) == set(want), "every object is listed")
            h.check(all(len(v) == len(set(v)) for v in g.values()), "no duplicates")
            h.check(all(set(g[k]) == want[k] for k in want if k in g), "connected exactly when related")
    return fn


def adjacent(kind):
    def fn(h):
        rects = layout(h, kind)
        b = build(h, rects)
        ss = sorted({p.rsplit("/", 2)[0] for p in rects})
        for s in ss:
            for s2 in ss:
                if s == s2:
                    continue
                want = OR(*[OR(facing(p, q), crossing(p, q)) for a, p in rects.items() for c, q in rects.items()
                            if a.startswith(s + "/") and c.startswith(s2 + "/")])
                r = b.get("b/" + s).is_adjacent_to_solid(b.get("b/" + s2))
                h.check(want if r else NOT(want), "adjacent exactly when polygons face or cross")
                pq = [(p, q) for a, p in rects.items() for c, q in rects.items()
                      if a.startswith(s + "/") and c.startswith(s2 + "/")]
                i = b.get("b/" + s).has_correct_interface(b.get("b/" + s2))
                face = OR(*[facing(p, q) for p, q in pq])
                part = OR(*[AND(overlap(p, q), NOT(facing(p, q))) for p, q in pq])
                h.check(face if i else OR(NOT(face), part), "stitched when the polygons in contact face each other")
    return fn


def boxes(h):
    """Two boxes, the second one moved along the common face; default flags of the graph."""
    y = h.pick("at", (-1, 0, 1)) if h.flag("exact") else h.real("y", -1.5, 1.5)
    for c in (-1, 0, 1):
        if not isinstance(y, int):
            h.assume(OR(y - c > M, c - y > M))
    b = Building([Zone([box(1, 1, 1, (0, 0, 0), "s"), box(1, 1, 1, (1, y, 0), "s1")], name="z")], name="b")
    near = AND(y > -1, y < 1)
    r = b["z"]["s"].is_adjacent_to_solid(b["z"]["s1"])
    h.check(near if r else NOT(near), "adjacent when the faces overlap")
    g = b.get_graph(new=True, level="solid", facing=True, overlapping=True)
    # the floors and ceilings of boxes side by side only touch
    h.check(near if g["b/z/s"] == ["b/z/s1"] else NOT(near), "connected when the faces overlap")
    h.check((g["b/z/s1"] == ["b/z/s"]) == (g["b/z/s"] == ["b/z/s1"]), "symmetric")


def penta(h):
    """Faces with five corners."""
    y = 0 if h.flag("exact") else h.real("y", 0.05, 3)
    if not isinstance(y, int):
        for c in (0.5, 1, 1.5):
            h.assume(OR(y - c > M, c - y > M))
    uv = [(0, 0), (1, 0), (1.5, 0.5), (1, 1), (0, 1)]
    k = h.pick("start", range(5)) if isinstance(y, int) else 1
    s1 = Solid([Wall([Polygon(h.array([[1, u, v] for u, v in uv]), name="p")], name="w")], name="s1")
    q = [[1, u + y, v] for u, v in uv[::-1]]
    s2 = Solid([Wall([Polygon(h.array(q[k:] + q[:k]), name="p")], name="w")], name="s2")
    near = True if isinstance(y, int) else y < 1.5
    for a, b in ((s1, s2), (s2, s1)):
        h.check(near if a.is_adjacent_to_solid(b) else NOT(near), "adjacent when the faces overlap")
        h.check(bool(a.has_correct_interface(b)) == isinstance(y, int), "correct interface when they face")


def cache(h):
    """A graph asked for without `new` is the one made before; the first one is made on demand."""
    rects = layout(h, "pair")
    b = build(h, rects)
    f = truth(facing(rects["z/s/w/p"], rects["z/s1/w/p"]))
    want = {"b/z/s": ["b/z/s1"] if f else [], "b/z/s1": ["b/z/s"] if f else []}
    h.check(b.get_graph(level="solid") == want, "the first graph is made on demand")
    b["z"].add_solid(Solid([Wall([Polygon(h.array(Rect(5, 0, 1, 0, 1, True).pts()), name="p")], name="w")], name="s2"))
    want["b/z/s2"] = []
    h.check(b.get_graph(new=True, level="solid") == want, "a new graph has the objects added")


ALL = [(f, o, t) for f in (True, False) for o in (True, False) for t in (True, False) if f or o or t]
MAIN = [(True, False, False), (True, True, False), (False, True, False)]


def cases(tier):
    th = tier == "thorough"
    cs = []
    quick = {"pair": [MAIN[2], (False, False, True)], "zones": MAIN[:1], "walls": MAIN[:1],
             "inner": MAIN[:1], "middle": MAIN[:1]}
    for kind in ("pair", "zones", "walls", "inner", "middle"):
        cs.append(Case("functions-" + kind, graphs(kind, ALL if th else quick[kind], "functions"),
                       "all offsets of one polygon, relation flags"))
        cs.append(Case("building-" + kind, graphs(kind, ALL if th else MAIN[1:2], "building"),
                       "all offsets of one polygon, relation flags"))
        cs.append(Case("adjacent-" + kind, adjacent(kind), "all offsets of one polygon"))
    cs += [Case("boxes", boxes, "all offsets of a box along the common face"),
           Case("penta", penta, "all offsets of a face with five corners"),
           Case("cache", cache, "all offsets of one polygon")]
    return cs
