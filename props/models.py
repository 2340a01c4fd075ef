"""Small buildings with symbolic coordinates for the file-format harnesses."""
from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from symex.ctx import AND, near, near_vec

# polygon templates: counter-clockwise corners in a plane given by (origin, e1, e2)
UV = {"tri": [(0, 0), (3, 0), (1, 2)], "sq": [(0, 0), (2, 0), (2, 1), (0, 1)],
      "ell": [(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)],
      "pent": [(0, 0), (4, 0), (5, 3), (2, 5), (-1, 3)],
      "arrow": [(0, 0), (4, 1), (0, 2), (1, 1)],
      "hex": [(1, 0), (3, 0), (4, 2), (3, 4), (1, 4), (0, 2)]}
# triangulations other than the one found by ear clipping
TRI = {"sq": [[2, 3, 0], [0, 1, 2]], "hex": [[0, 2, 4], [0, 1, 2], [2, 3, 4], [4, 5, 0]]}
FRAME = {"xy": ((1, 0, 0), (0, 1, 0)), "yz": ((0, 1, 0), (0, 0, 1)),
         "tilt": ((1, 0, 0.5), (0, 1, 0)), "skew": ((1, 0, 0.5), (0, 1, -1))}


def polygon(h, spec, name):
    """spec: shape[:plane[:options]]; options: r reversed, v<k> started at vertex k with given
    normal, s symbolic position, g symbolic size, t given triangles."""
    shape, plane, opt = (spec.split(":") + ["xy", ""])[:3] if spec.count(":") < 2 \
        else spec.split(":")
    uv = list(UV[shape])
    a, b = FRAME[plane or "xy"]
    o = [0.5, -1.25, 2.0]
    if "s" in opt:
        o = [h.real(f"{name}{c}", -50, 50) for c in "xyz"]
    g = h.real(f"{name}g", 0.5, 5) if "g" in opt else 1
    pts = [[o[k] + g * (u * a[k] + v * b[k]) for k in range(3)] for u, v in uv]
    n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    if "r" in opt:
        pts, n = pts[::-1], [-x for x in n]
    ln = sum(x * x for x in n) ** 0.5
    kw = {}
    if "v" in opt:
        k = int(opt[opt.index("v") + 1])
        pts = pts[k:] + pts[:k]
        kw["vn"] = h.array([x / ln for x in n])
    if "t" in opt:
        kw["tri"] = h.ints(TRI[shape])
    return Polygon(h.array(pts), name=name, **kw)


def build(h, tree, name="bdg"):
    """tree: {zone: {solid: {wall: {polygon: spec}}}}"""
    zones = []
    for zn, sl in tree.items():
        solids = []
        for sn, wl in sl.items():
            walls = []
            for wn, pl in wl.items():
                walls.append(Wall([polygon(h, spec, pn) for pn, spec in pl.items()], name=wn))
            solids.append(Solid(walls, name=sn))
        zones.append(Zone(solids, name=zn))
    return Building(zones, name=name)


def names(b):
    return [(zn, z.name, [(sn, s.name, [(wn, w.name, [(pn, p.name) for pn, p in w.children.items()])
                                        for wn, w in s.children.items()])
                          for sn, s in z.children.items()]) for zn, z in b.children.items()]


def polys(b):
    return [p for z in b.children.values() for s in z.children.values()
            for w in s.children.values() for p in w.children.values()]


def solids(b):
    return [s for z in b.children.values() for s in z.children.values()]


def snapshot(b):
    """Everything a reader of the building can see, for comparison after a call."""
    return (b.name, b.uid, names(b),
            [(id(p), p.uid, [tuple(x) for x in p.pts], [tuple(int(i) for i in t) for t in p.tri],
              tuple(p.vn), p.area) for p in polys(b)])


def same_snapshot(h, a, b, msg):
    h.check(a[:3] == b[:3] and len(a[3]) == len(b[3]), msg)
    for x, y in zip(a[3], b[3]):
        h.check(x[:2] == y[:2] and x[3] == y[3] and len(x[2]) == len(y[2]), msg)
        h.check(AND(*[p[k] == q[k] for p, q in zip(x[2], y[2]) for k in range(3)]), msg)


def same_polygon(h, p, q, tol, uid=True, ctr=True):
    """q, read back, is the polygon p."""
    if uid:
        h.check(p.uid == q.uid, "identifier")
    h.check(tuple(p.pts.shape) == tuple(q.pts.shape), "number of vertices")
    h.check(AND(*[near(p.pts[i][k], q.pts[i][k], tol) for i in range(len(p.pts)) for k in range(3)]),
            "vertex coordinates")
    h.check([[int(i) for i in t] for t in p.tri] == [[int(i) for i in t] for t in q.tri],
            "triangles")
    h.check(near_vec(p.vn, q.vn, 1e-9 + tol), "normal")
    h.close(p.area, q.area, 1e-6, "area")
    if ctr:
        h.check(near_vec(p.ctr, q.ctr, 1e-6), "centroid")
