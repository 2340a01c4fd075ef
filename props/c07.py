"""Bounding boxes."""
from building3d.geom.bboxes import are_bboxes_overlapping, bounding_box, is_point_inside_bbox
from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from symex.ctx import AND, NOT, OR, Case

R = 100


def tight(h, box, pts, what):
    lo, hi = box
    for k in range(3):
        h.check(AND(*[lo[k] <= p[k] for p in pts]), f"{what}: lower corner bounds all points")
        h.check(AND(*[hi[k] >= p[k] for p in pts]), f"{what}: upper corner bounds all points")
        h.check(OR(*[lo[k] == p[k] for p in pts]), f"{what}: lower side is touched")
        h.check(OR(*[hi[k] == p[k] for p in pts]), f"{what}: upper side is touched")


def box_of_points(n):
    def fn(h):
        pts = [h.reals(f"p{i}_", 3, -R, R) for i in range(n)]
        tight(h, bounding_box(h.array(pts)), pts, "points")
    return fn


def point_in(n):
    def fn(h):
        pts = [h.reals(f"p{i}_", 3, -R, R) for i in range(n)]
        q = h.reals("q", 3, -R, R)
        lo = [min_(h, [p[k] for p in pts], f"lo{k}", -1) for k in range(3)]
        hi = [min_(h, [p[k] for p in pts], f"hi{k}", 1) for k in range(3)]
        r = bool(is_point_inside_bbox(h.array(q), h.array(pts)))
        if r:
            h.check(AND(*[AND(q[k] >= lo[k] - 1e-6, q[k] <= hi[k] + 1e-6) for k in range(3)]),
                    "a point reported inside is in range")
        else:
            h.check(OR(*[OR(q[k] < lo[k], q[k] > hi[k]) for k in range(3)]),
                    "a point reported outside is out of range")
    return fn


def min_(h, xs, name, s):
    """Extremum introduced by its definition."""
    m = xs[0]
    for x in xs[1:]:
        if s < 0:
            m = x if x < m else m
        else:
            m = x if x > m else m
    return m


def overlap(h):
    a, da = h.reals("a", 3, -R, R), h.reals("da", 3, 0, R)
    b, db = h.reals("b", 3, -R, R), h.reals("db", 3, 0, R)
    A = (h.array(a), h.array([x + d for x, d in zip(a, da)]))
    B = (h.array(b), h.array([x + d for x, d in zip(b, db)]))
    share = AND(*[AND(a[k] <= b[k] + db[k], b[k] <= a[k] + da[k]) for k in range(3)])
    r = bool(are_bboxes_overlapping(A, B))
    h.check(share if r else NOT(share), "boxes overlap iff they share a point")


def overlap_sym(h):
    a, da = h.reals("a", 3, -R, R), h.reals("da", 3, 0, R)
    b, db = h.reals("b", 3, -R, R), h.reals("db", 3, 0, R)
    A = (h.array(a), h.array([x + d for x, d in zip(a, da)]))
    B = (h.array(b), h.array([x + d for x, d in zip(b, db)]))
    h.check(bool(are_bboxes_overlapping(A, B)) == bool(are_bboxes_overlapping(B, A)),
            "overlap is symmetric")


def rect(h, o, name, k):
    """Unit square with corner o in coordinate plane k."""
    e = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    a, b = e[k], e[(k + 1) % 3]
    uv = [(0, 0), (1, 0), (1, 1), (0, 1)]
    pts = [[o[c] + u * a[c] + v * b[c] for c in range(3)] for u, v in uv]
    return Polygon(h.array(pts), name=name), pts


def tree(lvl):
    def fn(h):
        ps, pts = [], []
        for i in range(3):
            o = [0, 0, 0]
            o[i] = h.real(f"o{i}", -8, 8)
            o[(i + 1) % 3] = i - 1
            p, q = rect(h, o, f"p{i}", i)
            ps.append(p)
            pts.append(q)
            if lvl == "polygon":
                tight(h, p.bbox(), q, "polygon")
                return
        w0, w1 = Wall(ps[:2], name="w0"), Wall(ps[2:], name="w1")
        if lvl == "wall":
            tight(h, w0.bbox(), pts[0] + pts[1], "wall")
            return
        allp = [x for q in pts for x in q]
        if lvl == "solid":
            tight(h, Solid([w0, w1], name="s").bbox(), allp, "solid")
            return
        z = Zone([Solid([w0], name="s0"), Solid([w1], name="s1")], name="z")
        if lvl == "zone":
            tight(h, z.bbox(), allp, "zone")
            return
        b = Building([Zone([Solid([w0], name="s")], name="z0"),
                      Zone([Solid([w1], name="s")], name="z1")], name="b")
        tight(h, b.bbox(), allp, "building")
    return fn


def cases(tier):
    cs = [Case(f"box-{n}", box_of_points(n), f"{n} points, coordinates in [-{R},{R}]")
          for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5))]
    cs += [Case(f"point-{n}", point_in(n), f"{n} points and a test point in [-{R},{R}]^3")
           for n in ((2,) if tier == "quick" else (1, 2, 3))]
    cs += [Case("overlap", overlap, "all pairs of boxes"),
           Case("overlap-sym", overlap_sym, "all pairs of boxes")]
    cs += [Case(f"tree-{v}", tree(v), "unit squares at symbolic offsets in [-8,8]")
           for v in ("polygon", "wall", "solid", "zone", "building")]
    return cs
