"""Model tree: names, paths and lookup."""
from building3d.geom.building import Building
from building3d.geom.exceptions import GeometryError
from building3d.geom.paths.validate_name import validate_name
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from props.common import raises
from symex.ctx import AND, Case

ASSUMPTIONS = ["names are taken from a set large enough for every pattern of equal and different"
               " names (code compares names only for equality)",
               "an object is added to one parent only"]
SEP = "/"
N = ["a", "b", "c", "d"]


def poly(h, name, z=0.0):
    return Polygon(h.array([[0, 0, z], [1, 0, z], [0, 1, z]]), name=name)


def snap(b):
    """Tree of names and object identities."""
    return [(zn, id(z), [(sn, id(s), [(wn, id(w), [(pn, id(p)) for pn, p in w.children.items()])
                                      for wn, w in s.children.items()])
                         for sn, s in z.children.items()]) for zn, z in b.children.items()]


def consistent(h, b):
    """Every object is found under its own path from every object of the tree."""
    objs = [(b, None, None)]
    polys = []
    for zn, z in b.children.items():
        objs.append((z, b, zn))
        zp = []
        for sn, s in z.children.items():
            objs.append((s, z, sn))
            sp = []
            for wn, w in s.children.items():
                objs.append((w, s, wn))
                wp = []
                for pn, p in w.children.items():
                    objs.append((p, w, pn))
                    wp.append(SEP.join([b.name, zn, sn, wn, pn]))
                h.check(list(w.get_polygon_paths()) == wp, "polygon paths of a wall")
                sp += wp
            h.check(list(s.get_polygon_paths()) == sp, "polygon paths of a solid")
            zp += sp
        h.check(list(z.get_polygon_paths()) == zp, "polygon paths of a zone")
        polys += zp
    h.check(list(b.get_polygon_paths()) == polys, "polygon paths of the building")
    for o, parent, key in objs:
        h.check(o.parent is parent and (key is None or o.name == key), "parent and name")
        if parent is not None:
            h.check(o.path == parent.path + SEP + o.name, "path")
            h.check(parent[key] is o, "item access")
        for q, _, _ in objs:
            h.check(q.get(o.path) is o, "object found under its path")
        if hasattr(o, "pts"):
            for i in range(len(o.pts)):
                v = b.get(o.path + SEP + str(i))
                h.check(all(float(v[k]) == float(o.pts[i][k]) for k in range(3)), "vertex by path")
    h.check(b.path == b.name, "path of the building")


def adding(h):
    """Two objects at every level, all coincidences of names."""
    b = Building(name="a")
    names = {}
    for lev in "zswp":
        names[lev] = (N[h.int(lev + "0", 0, 1)], N[h.int(lev + "1", 0, 2)])
    top = Zone(name=names["z"][0])
    b.add_zone(top)
    before = snap(b)
    r = raises(lambda: b.add_zone(Zone(name=names["z"][1])), GeometryError)
    clash(h, b, names["z"], r, before)
    s = Solid(name=names["s"][0])
    top.add_solid(s)
    before = snap(b)
    r = raises(lambda: top.add_solid(Solid(name=names["s"][1])), GeometryError)
    clash(h, b, names["s"], r, before)
    w = Wall(name=names["w"][0])
    s.add_wall(w)
    before = snap(b)
    r = raises(lambda: s.add_wall(Wall(name=names["w"][1])), GeometryError)
    clash(h, b, names["w"], r, before)
    w.add_polygon(poly(h, names["p"][0]))
    before = snap(b)
    r = raises(lambda: w.add_polygon(poly(h, names["p"][1], 1.0)), GeometryError)
    clash(h, b, names["p"], r, before)
    consistent(h, b)


def clash(h, b, nm, r, before):
    h.check((r is not None) == (nm[0] == nm[1]), "taken name is rejected, free name accepted")
    if r is not None:
        h.check(snap(b) == before, "rejected object leaves the model as it was")
    else:
        h.check(snap(b) != before, "accepted object is in the model")


def constructor(h):
    """Duplicate names in the constructors."""
    i, j = h.int("i", 0, 1), h.int("j", 0, 1)
    kind = h.pick("kind", ["zone", "solid", "wall", "polygon"])
    mk = {"zone": lambda: Building([Zone(name=N[i]), Zone(name=N[j])], name="x"),
          "solid": lambda: Zone([Solid(name=N[i]), Solid(name=N[j])], name="x"),
          "wall": lambda: Solid([Wall(name=N[i]), Wall(name=N[j])], name="x"),
          "polygon": lambda: Wall([poly(h, N[i]), poly(h, N[j])], name="x")}[kind]
    r = raises(mk, GeometryError)
    h.check((r is not None) == (i == j), "constructor rejects repeated names")
    if r is None:
        o = mk()
        h.check(list(o.children) == [N[i], N[j]] and all(c.parent is o for c in o.children.values()),
                "children in order, with their parent")


def start(h):
    w0 = Wall([poly(h, "a"), poly(h, "b", 1.0)], name="a")
    w1 = Wall([poly(h, "a", 2.0)], name="b")
    s = Solid([w0, w1], name="s")
    return Building([Zone([s, Solid(name="e")], name="z")], name="b"), s, w0


def history(steps, two=True):
    def fn(h):
        b, s, w = start(h)
        for k in range(steps):
            op = h.pick(f"op{k}", ["add polygon", "replace polygon", "add wall", "replace wall"]
                        + ["replace by two"] * two)
            before = snap(b)
            if op == "add polygon":
                n = N[h.int(f"n{k}", 0, 2)]
                want = None if n in w.children else [*w.children, n]
                cont, exc = w, raises(lambda: w.add_polygon(poly(h, n)), GeometryError)
            elif op in ("replace polygon", "replace by two"):
                old = list(w.children)[h.int(f"o{k}", 0, 1)] if len(w.children) > 1 else \
                    list(w.children)[0]
                ns = [N[h.int(f"n{k}", 0, 2)]]
                if op == "replace by two":
                    ns.append(N[h.int(f"m{k}", 0, 2)])
                rest = [x for x in w.children if x != old]
                want = None if len(set(rest + ns)) < len(rest) + len(ns) else rest + ns
                cont = w
                exc = raises(lambda: w.replace_polygon(old, *[poly(h, x, 3.0) for x in ns]),
                             GeometryError)
            else:
                n = N[h.int(f"n{k}", 0, 2)]
                new = Wall([poly(h, "q")], name=n)
                cont = s
                if op == "add wall":
                    want = None if n in s.children else [*s.children, n]
                    exc = raises(lambda: s.add_wall(new), GeometryError)
                else:
                    old = list(s.children)[h.int(f"o{k}", 0, 1)]
                    rest = [x for x in s.children if x != old]
                    want = None if n in rest else rest + [n]
                    exc = raises(lambda: s.replace_wall(old, new), GeometryError)
            h.check((exc is not None) == (want is None), "taken names are rejected, free accepted")
            if want is None:
                h.check(snap(b) == before, "rejected change leaves the model as it was")
            else:
                h.check(sorted(cont.children) == sorted(want), "children after the change")
            if w.name not in s.children or s.children[w.name] is not w:
                w = list(s.children.values())[0]
            if not w.children:
                break
        consistent(h, b)
    return fn


def missing(h):
    """Replacing an object that is not there is rejected and changes nothing."""
    b, s, w = start(h)
    before = snap(b)
    what = h.pick("what", ["polygon", "wall"])
    if what == "polygon":
        r = raises(lambda: w.replace_polygon("x", poly(h, N[h.int("n", 0, 2)])), Exception)
    else:
        r = raises(lambda: s.replace_wall("x", Wall(name=N[h.int("n", 0, 2)])), Exception)
    h.check(r is not None, "replacing a missing object is rejected")
    h.check(snap(b) == before, "rejected change leaves the model as it was")
    consistent(h, b)


def lookup(h):
    """Paths with wrong components, from any object."""
    b, s, w = start(h)
    right = ["b", "z", "s", "a", "b", "2", "x"]
    ln = h.int("len", 1, 7)
    bad = h.int("bad", 0, 7)
    wrong = h.pick("wrong", ["", "y", "b", "z"] if bad != 5 else ["y", "3", "1.5", ""])
    parts = right[:ln]
    ok = ln < 7
    if bad < ln:
        ok = ok and parts[bad] == wrong or ok and bad == 3 and wrong == "b" and ln == 4
        parts[bad] = wrong
    src = h.pick("from", ["building", "zone", "polygon"])
    o = {"building": b, "zone": b["z"], "polygon": w["b"]}[src]
    r = raises(lambda: o.get(SEP.join(parts)), Exception)
    h.check((r is None) == ok, "a path is found if and only if it leads to an object")
    if r is not None:
        h.check(isinstance(r, ValueError), "wrong path is reported as ValueError")


def separators(h):
    nm = h.pick("name", ["/", "a/", "/a", "a/b", "ab", "a//b", "a-b", ""])
    kind = h.pick("kind", ["validate", "building", "zone", "solid", "wall", "polygon"])
    mk = {"validate": lambda: validate_name(nm), "building": lambda: Building(name=nm),
          "zone": lambda: Zone(name=nm), "solid": lambda: Solid(name=nm),
          "wall": lambda: Wall(name=nm), "polygon": lambda: poly(h, nm)}[kind]
    r = raises(mk, ValueError)
    h.check((r is not None) == (SEP in nm), "names with the separator are rejected")
    if r is None:
        o = mk()
        h.check((o if kind == "validate" else o.name) == nm, "name is kept")


def defaults(h):
    """Objects without a name get different names; identifiers are kept."""
    kind = h.pick("kind", ["building", "zone", "solid", "wall", "polygon"])
    mk = {"building": Building, "zone": Zone, "solid": Solid, "wall": Wall,
          "polygon": lambda **k: Polygon(h.array([[0, 0, 0], [1, 0, 0], [0, 1, 0]]), **k)}[kind]
    x, y, z = mk(), mk(), mk(name="n", uid="u")
    h.check(x.name != y.name and x.uid != y.uid and SEP not in x.name, "random names differ")
    h.check(z.name == "n" and z.uid == "u", "given name and identifier are kept")


def cases(tier):
    cs = [Case("adding", adding, "two objects per level, all coincidences of names"),
          Case("constructor", constructor, "two children, equal or different names"),
          Case("history-1", history(1), "one change"),
          Case("history-2", history(2), "two changes"),
          Case("missing", missing, "replacing a missing object"),
          Case("lookup", lookup, "paths of length 1 to 7 with at most one wrong component"),
          Case("separators", separators, "names with and without the separator"),
          Case("defaults", defaults, "all kinds of objects")]
    if tier != "quick":
        cs.append(Case("history-3", history(3, False), "three changes"))
    return cs
