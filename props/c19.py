"""dotbim files."""
import json
import os
import tempfile

from building3d.io.dotbim import read_dotbim
from building3d.io.dotbim import write_dotbim

from props.common import raises
from props.models import build, names, polys, same_polygon, same_snapshot, snapshot
from symex.ctx import Case

ASSUMPTIONS = [
    "dotbimpy and json write numbers so that the same numbers are read back; symbolic numbers are"
    " carried through the file as tokens",
    "polygon shapes are fixed, positions and sizes symbolic; every zone, solid and wall has a"
    " polygon (the format has no place for empty ones)",
]
S = "sq:xy:s"
TREES = {
    "one": {"z": {"s": {"w": {"p": "sq:xy:sg"}}}},
    "shapes": {"z": {"s": {"w": {"p": "tri:skew:s", "q": "ell:yz:r"}, "v": {"p": "pent:tilt"}}}},
    "names": {"vertices": {"faces": {"info": {"mesh_id": S, "uid": "tri"}, "0": {"0": "sq"}}},
              "faces": {"faces": {"uid": {"pts": "sq:yz"}}}},
    "repeated": {"a": {"a": {"a": {"a": S}, "b": {"a": "tri"}}, "b": {"a": {"a": "sq:yz"}}},
                 "b": {"a": {"a": {"a": "ell"}}}},
    "order": {"b": {"b": {"c": {"z": "sq", "a": S}, "a": {"k": "tri"}}, "a": {"w": {"p": "sq:tilt"}}},
              "a": {"x": {"y": {"z": "tri:yz"}}}},
    "tri": {"z": {"s": {"w": {"p": "hex:tilt:st", "q": "sq:yz:t", "r": "hex:xy"}}}},
    "given": {"z": {"s": {"w": {"p": "ell:xy:v3", "q": "arrow:yz:rv0", "r": "arrow:skew:v3"}}}},
    "many": {f"z{i}": {"s": {"w": {f"p{j}": "tri" for j in range(3)}}} for i in range(4)},
}


def uids(b):
    return [b.uid] + [(z.uid, [(s.uid, [(w.uid, [p.uid for p in w.children.values()])
                                        for w in s.children.values()])
                               for s in z.children.values()]) for z in b.children.values()]


def roundtrip(key):
    def fn(h):
        b = build(h, TREES[key])
        before = snapshot(b)
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "sub", "x.bim")
            write_dotbim(path, b)
            same_snapshot(h, before, snapshot(b), "writing leaves the building as it was")
            c = read_dotbim(path)
            path2 = os.path.join(d, "y.bim")
            write_dotbim(path2, c)
            e = read_dotbim(path2)
        for r in (c, e):
            h.check(r.name == b.name, "name of the building")
            h.check(names(r) == names(b), "tree of names")
            h.check(uids(r) == uids(b), "tree of identifiers")
            for p, q in zip(polys(b), polys(r)):
                same_polygon(h, p, q, 0, ctr=False)
                h.check(p.path == q.path, "path")
    return fn


def foreign(h):
    """Files of other tools are rejected, those without a tool name too."""
    b = build(h, TREES["one"])
    tool = h.pick("tool", ["Other", "", "building3d", "Building3", "Building3D 2", None])
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "x.bim")
        write_dotbim(path, b)
        with open(path) as f:
            data = json.load(f)
        h.check(data["info"]["generated_by"] == "Building3D", "files carry the name of the tool")
        if tool is None:
            del data["info"]["generated_by"]
        else:
            data["info"]["generated_by"] = tool
        with open(path, "w") as f:
            json.dump(data, f)
        r = raises(lambda: read_dotbim(path), ValueError, KeyError)
        h.check(r is not None, "files of other tools are rejected")


def cases(tier):
    cs = [Case("roundtrip-" + k, roundtrip(k), "positions in [-50,50]^3, size in [0.5,5]")
          for k in TREES]
    return cs + [Case("foreign", foreign, "tool names from a list")]
