"""Array format."""
from building3d.io.arrayformat import from_array_format
from building3d.io.arrayformat import get_polygon_points_and_faces
from building3d.io.arrayformat import to_array_format

from props.models import build, polys, same_snapshot, snapshot, solids
from symex.ctx import AND, Case, near_vec

ASSUMPTIONS = [
    "polygon shapes are fixed, positions and sizes symbolic; every zone has a solid (the format has"
    " no place for zones without solids)",
]
S = "sq:xy:s"
TREES = {
    "one": {"z": {"s": {"w": {"p": "sq:xy:sg"}}}},
    "mixed": {"z": {"s": {"w": {"p": "tri:skew:s", "q": "ell:yz:r", "r": "sq"}, "v": {"p": "pent:tilt"}}}},
    "levels": {"a": {"a": {"a": {"a": S}, "b": {"a": "tri"}}, "b": {"a": {"a": "sq:yz"}}},
               "b": {"a": {"a": {"a": "ell"}}, "c": {"w": {"p": "pent:yz:s", "q": "tri"}}}},
    "zones": {"a": {"s": {"w": {"p": S}}}, "b": {"s": {"w": {"p": "tri"}}}, "c": {"s": {"w": {"p": "sq:yz"}}},
              "d": {"s": {"w": {"p": "ell"}}, "t": {"w": {"p": "tri:yz"}}}},
    "tri": {"z": {"s": {"w": {"p": "hex:tilt:st", "q": "sq:yz:t", "r": "hex:xy"}}}},
    "given": {"z": {"s": {"w": {"p": "ell:xy:v3", "q": "arrow:yz:rv0", "r": "arrow:skew:v3"}}}},
    "same": {"z": {"s": {"w": {"p": "sq", "q": "sq"}, "v": {"p": "sq:xy:r"}}}},
    "emptywall": {"z": {"s": {"w": {}, "v": {"p": S}, "u": {}, "t": {"q": "tri", "r": "sq"}}}},
    "emptysolid": {"z": {"s": {}, "t": {"w": {"p": "tri:xy:s"}}, "r": {}}, "y": {"s": {"w": {"p": S}}}},
}


def shape(b):
    return [[[len(w.children) for w in s.children.values()] for s in z.children.values()]
            for z in b.children.values()]


def check_arrays(h, b, arr):
    points, faces, polygons, walls, slds, zones = arr
    ps = polys(b)
    h.check(tuple(points.shape) == (sum(len(p.pts) for p in ps), 3), "number of points")
    h.check(tuple(faces.shape) == (sum(len(p.tri) for p in ps), 3), "number of faces")
    h.check(len(polygons) == len(faces) and len(walls) == len(ps), "sizes of the maps")
    i = j = pn = wn = sn = 0
    for zn, z in enumerate(b.children.values()):
        h.check(z.num == zn, "number of the zone")
        for s in z.children.values():
            h.check(s.num == sn and zones[sn] == zn, "solid to zone")
            for w in s.children.values():
                h.check(w.num == wn and slds[wn] == sn, "wall to solid")
                for p in w.children.values():
                    h.check(p.num == pn and walls[pn] == wn, "polygon to wall")
                    for t in p.tri:
                        h.check(polygons[j] == pn, "face to polygon")
                        for c in range(3):
                            v = points[int(faces[j][c])]
                            q = p.pts[int(t[c])]
                            h.check(AND(*[v[k] == q[k] for k in range(3)]), "face corners")
                        j += 1
                    for q in p.pts:
                        h.check(AND(*[points[i][k] == q[k] for k in range(3)]), "points in order")
                        i += 1
                    pn += 1
                wn += 1
            sn += 1
    h.check(len(slds) == wn and len(zones) == sn, "sizes of the maps")


def same(h, p, pts, tri):
    h.check(tuple(pts.shape) == tuple(p.pts.shape) and
            AND(*[pts[i][k] == p.pts[i][k] for i in range(len(p.pts)) for k in range(3)]),
            "points of the polygon")
    h.check([[int(i) for i in t] for t in tri] == [[int(i) for i in t] for t in p.tri],
            "triangles of the polygon")


def arrays(key):
    def fn(h):
        b = build(h, TREES[key])
        before = snapshot(b)
        arr = to_array_format(b)
        same_snapshot(h, before, snapshot(b), "conversion leaves the building as it was")
        check_arrays(h, b, arr)
        arr2 = to_array_format(b)
        check_arrays(h, b, arr2)
        ps = polys(b)
        for i, p in enumerate(ps):
            same(h, p, *get_polygon_points_and_faces(*arr[:3], i))
        c = from_array_format(*arr)
        h.check(shape(c) == shape(b), "structure of the restored building")
        for p, q in zip(ps, polys(c)):
            same(h, p, q.pts, q.tri)
            h.check(near_vec(p.vn, q.vn, 1e-9), "normal of the restored polygon")
            h.close(p.area, q.area, 1e-6, "area of the restored polygon")
            h.check(near_vec(p.ctr, q.ctr, 1e-6), "centroid of the restored polygon")
        for s, t in zip(solids(b), solids(c)):
            h.close(s.volume, t.volume, 1e-6, "volume of the restored solid")
        check_arrays(h, c, to_array_format(c))
    return fn


def other(h):
    """Numbering starts again for every building."""
    a = build(h, TREES["levels"])
    b = build(h, TREES["mixed"])
    to_array_format(a)
    check_arrays(h, b, to_array_format(b))
    check_arrays(h, a, to_array_format(a))


def cases(tier):
    cs = [Case("arrays-" + k, arrays(k), "positions in [-50,50]^3, size in [0.5,5]")
          for k in TREES]
    return cs + [Case("other", other, "positions in [-50,50]^3")]
