"""B3D files."""
import os
import tempfile

from building3d.io.b3d import read_b3d
from building3d.io.b3d import write_b3d

from props.models import build, names, polys, same_polygon, same_snapshot, snapshot
from symex.ctx import Case

ASSUMPTIONS = [
    "json writes a float so that the same float is read back (its documented contract); symbolic"
    " numbers are carried through the file as tokens",
    "polygon shapes are fixed, positions and sizes symbolic",
]
S = "sq:xy:s"
TREES = {
    "one": {"z": {"s": {"w": {"p": "sq:xy:sg"}}}},
    "shapes": {"z": {"s": {"w": {"p": "tri:skew:s", "q": "ell:yz:r"}, "v": {"p": "pent:tilt"}}}},
    "names": {"name": {"zones": {"pts": {"tri": S, "uid": "tri"}, "0": {"0": "sq"}}},
              "zones": {"name": {"uid": {"pts": "sq:yz"}}}},
    "repeated": {"a": {"a": {"a": {"a": S}, "b": {"a": "tri"}}, "b": {"a": {"a": "sq:yz"}}},
                 "b": {"a": {"a": {"a": "ell"}}}},
    "order": {"b": {"b": {"c": {"z": "sq", "a": S}, "a": {"k": "tri"}}, "a": {"w": {"p": "sq:tilt"}}},
              "a": {"x": {"y": {"z": "tri:yz"}}}},
    "tri": {"z": {"s": {"w": {"p": "hex:tilt:st", "q": "sq:yz:t", "r": "hex:xy"}}}},
    "given": {"z": {"s": {"w": {"p": "ell:xy:v3", "q": "arrow:yz:rv0", "r": "arrow:skew:v3"}}}},
    "emptybuilding": {}, "emptyzone": {"z": {}, "y": {"s": {"w": {"p": S}}}},
    "emptysolid": {"z": {"s": {}, "t": {"w": {"p": S}}}},
    "emptywall": {"z": {"s": {"w": {}, "v": {"p": S}, "u": {}}}, "y": {}},
}


def roundtrip(key):
    def fn(h):
        b = build(h, TREES[key], name="b" if key != "names" else "name")
        before = snapshot(b)
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "sub", "x.b3d")
            write_b3d(path, b)
            same_snapshot(h, before, snapshot(b), "writing leaves the building as it was")
            c = read_b3d(path)
            c2 = read_b3d(path)
            h.check(names(c2) == names(c), "reading twice")
            # a file written from what was read is the same again
            path2 = os.path.join(d, "y.b3d")
            write_b3d(path2, c)
            e = read_b3d(path2)
        for r in (c, e):
            h.check(r.name == b.name, "name of the building")
            h.check(names(r) == names(b), "tree of names")
            for p, q in zip(polys(b), polys(r)):
                same_polygon(h, p, q, 0)
                h.check(p.path == q.path, "path")
    return fn


def overwrite(h):
    """A second write to the same file replaces the first one."""
    a = build(h, TREES["order"], name="a")
    b = build(h, TREES["one"], name="b")
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "x.b3d")
        write_b3d(path, a)
        write_b3d(path, b)
        c = read_b3d(path)
    h.check(c.name == "b" and names(c) == names(b), "the last building written is read")
    for p, q in zip(polys(b), polys(c)):
        same_polygon(h, p, q, 0)


def cases(tier):
    cs = [Case("roundtrip-" + k, roundtrip(k), "positions in [-50,50]^3, size in [0.5,5]")
          for k in TREES]
    return cs + [Case("overwrite", overwrite, "positions in [-50,50]^3, size in [0.5,5]")]
