"""STL files."""
import os
import tempfile

from building3d.io.stl import read_stl
from building3d.io.stl import write_stl

from props.models import build, same_snapshot, snapshot, solids
from symex.ctx import AND, OR, Case, near, near_vec

ASSUMPTIONS = [
    "a float formatted without precision is read back as the same float (Python's contract);"
    " symbolic numbers are carried through the file as tokens",
    "polygon shapes are fixed, positions and sizes symbolic",
]
S = "sq:xy:s"
BOX = {"floor": {"f": "sq:xy:rsg"}, "wall": {"w0": "sq:yz", "w1": "tri:tilt"}}
TREES = {
    "one": {"z": {"s": {"w": {"p": "sq:xy:sg"}}}},
    "shapes": {"z": {"s": {"w": {"p": "tri:skew:s", "q": "ell:yz:r"}, "v": {"p": "pent:tilt"}}}},
    "tri": {"z": {"s": {"w": {"p": "hex:tilt:st", "q": "sq:yz:t", "r": "hex:xy"}}}},
    "given": {"z": {"s": {"w": {"p": "ell:xy:v3", "q": "arrow:yz:rv0", "r": "arrow:skew:v3"}}}},
    "solids": {"a": {"s": BOX, "t": {"w": {"p": "tri:yz:s"}}}, "b": {"s": {"v": {"q": "pent:xy:r"}}}},
    "empty": {"a": {"s": {"w": {}}, "t": {"w": {"p": S}}}},
}


def tris(s):
    return [([p.pts[int(i)] for i in t], p) for w in s.children.values()
            for p in w.children.values() for t in p.tri]


def cyclic(a, b):
    return [AND(*[near(a[i][k], b[(i + r) % 3][k], 0) for i in range(3) for k in range(3)])
            for r in range(3)]


def roundtrip(key):
    def fn(h):
        b = build(h, TREES[key])
        before = snapshot(b)
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "sub", "house.stl")
            write_stl(path, b)
            same_snapshot(h, before, snapshot(b), "writing leaves the building as it was")
            with open(path) as f:
                lines = [ln.strip() for ln in f]
            c = read_stl(path)
        h.check(c.name == "house" and len(c.children) == 1, "building of one zone")
        sb, sc = solids(b), solids(c)
        h.check(len(sb) == len(sc), "number of solids")
        allt = []
        for s, t in zip(sb, sc):
            a, r = tris(s), tris(t)
            allt += a
            h.check(len(a) == len(r), "number of triangles of each solid")
            for (x, p), (y, q) in zip(a, r):
                o = cyclic(x, y)
                h.check(OR(*o), "corners and winding of each triangle")
                h.check(near_vec(p.vn, q.vn, 1e-6), "normal of each triangle")
            h.close(sum([p.area for w in s.children.values() for p in w.children.values()]),
                    sum([q.area for _, q in r]), 1e-6, "surface area")
            h.close(s.volume, t.volume, 1e-4, "volume")
        # the file itself
        fn_ = [ln for ln in lines if ln.startswith("facet")]
        vx = [ln for ln in lines if ln.startswith("vertex")]
        h.check(len(fn_) == len(allt) and len(vx) == 3 * len(allt), "one facet per triangle")
        flt = h.number
        for ln, (x, p) in zip(fn_, allt):
            w = ln.split()
            h.check(w[:2] == ["facet", "normal"] and len(w) == 5, "facet line")
            h.check(near_vec([flt(v) for v in w[2:]], p.vn, 1e-9), "facet normal")
        for i, ln in enumerate(vx):
            w = ln.split()
            h.check(near_vec([flt(v) for v in w[1:]], allt[i // 3][0][i % 3], 0), "facet corners")
        st = [ln for ln in lines if ln.startswith(("solid", "endsolid"))]
        h.check([ln.split()[0] for ln in st] == ["solid", "endsolid"] * len(sb), "solids closed")
    return fn


def cases(tier):
    return [Case("roundtrip-" + k, roundtrip(k), "positions in [-50,50]^3, size in [0.5,5]")
            for k in TREES]
