"""Slicing polygons."""
from building3d.geom.polygon import Polygon
from building3d.geom.polygon.slice import slice_polygon

from props.common import SHAPES, area2, embed, plane_normal, raises, rot
from symex.ctx import AND, OR, Case, add, near, near_vec, scale

TOL = 1e-6
M = 0.01
ASSUMPTIONS = [
    "the chain starts and ends on the boundary, runs inside the polygon in between and does not"
    " cross itself",
    f"points on edges are at least {M} of the edge length away from the corners (or on them)",
]
SHAPE = dict(SHAPES)
SHAPE["pent"] = [(0, 0), (4, 0), (5, 3), (2, 5), (-1, 3)]


def same_cycle(a, b):
    n = len(a)
    if len(b) != n:
        return False
    return OR(*[AND(*[near(a[i][k], b[(i + s) % n][k], TOL) for i in range(n) for k in range(3)])
                for s in range(n)])


def cut(poly, chain, i, j):
    """Oracle: the two parts of poly cut by the chain; chain[0] is on edge/vertex i, chain[-1] on j.

    i and j are positions along the boundary: k + 0.5 is the edge k, k the vertex k. For both on
    the same edge, the chain end comes first if i > j.
    """
    n = len(poly)

    def between(a, b):
        """Vertices strictly between boundary positions a and b, forward."""
        out, k = [], int(a) + 1
        end = b if b > a else b + n
        while k < end:
            out.append(poly[k % n])
            k += 1
        return out
    p1 = list(chain) + between(j, i)
    p2 = list(chain)[::-1] + between(i, j)
    return p1, p2


def make_case(shape, plane, frm, to, mids, flip=False, shift=0, named=None, rev=False,
              ends=((), ())):
    """frm, to: ("e", k) or ("v", k); mids: interior points, a pair is the range of a coordinate.

    ends: further points of the chain, outside or on the boundary, before and after it.
    named: (which arguments, reference point in the first part, reference point in the second).
    """
    def fn(h):
        uv = SHAPE[shape]
        n = len(uv)

        def pos(w, name):
            kind, k = w[0], w[1]
            a, b = uv[k], uv[(k + 1) % n]
            if kind == "v":
                return a, float(k)
            s = h.real(name, M, 1 - M) if len(w) < 3 else w[2]
            return (a[0] + (b[0] - a[0]) * s, a[1] + (b[1] - a[1]) * s), (k, s)
        p, i = pos(frm, "s")
        q, j = pos(to, "t")
        ii = i[0] + 0.5 if isinstance(i, tuple) else i
        jj = j[0] + 0.5 if isinstance(j, tuple) else j
        same = frm[0] == "e" and to[0] == "e" and frm[1] == to[1]
        if same:
            # the order along the edge decides which way round the boundary is shared
            if rev:
                h.assume(j[1] < i[1] - M)
                ii += 0.1
            else:
                h.assume(j[1] > i[1] + M)
                jj += 0.1
        mid = []
        for m in mids:
            mid.append(tuple(h.real(f"{c}{len(mid)}", *x) if isinstance(x, tuple) else x
                             for c, x in zip("uv", m)))
        chain = [p] + mid + [q]
        # the polygon, from any convex start, in either direction
        ring = rot(uv, shift)
        if flip:
            ring = ring[::-1]
        poly = Polygon(h.array(embed(plane, ring)), name="p")
        w1, w2 = cut(uv, chain, ii, jj)
        kw = {}
        if named:
            named_, a1, b1 = named
            A, B = h.array(embed(plane, [a1])[0]), h.array(embed(plane, [b1])[0])
            kw = {"both": dict(pt1=A, name1="one", pt2=B, name2="two"),
                  "swap": dict(pt1=B, name1="two", pt2=A, name2="one"),
                  "first": dict(pt1=A, name1="one", name2="two"),
                  "second": dict(pt2=B, name1="one", name2="two")}[named_]
        more = [[tuple(h.real("uv"[k] + "xy"[e], *x) if isinstance(x, tuple) else x for k, x in enumerate(pt))
                 for pt in ends[e]] for e in (0, 1)]
        full = more[0] + chain + more[1]
        r1, r2 = slice_polygon(poly, h.array(embed(plane, full)), **kw)
        nr = plane_normal(plane)
        ln = sum(x * x for x in nr) ** 0.5
        sg = -1 if flip else 1
        unit = [sg * x / ln for x in nr]
        h.check(near_vec(r1.vn, unit, TOL) and near_vec(r2.vn, unit, TOL), "normal is kept")
        o1, o2 = embed(plane, w1), embed(plane, w2)
        if flip:
            o1, o2 = o1[::-1], o2[::-1]
        straight = AND(same_cycle(o1, r1.pts), same_cycle(o2, r2.pts))
        crossed = AND(same_cycle(o1, r2.pts), same_cycle(o2, r1.pts))
        if not named:
            h.check(OR(straight, crossed), "the parts are the two sides of the chain")
        else:
            names = (r1.name, r2.name)
            h.check(sorted(names) == ["one", "two"], "parts carry the names")
            if names == ("one", "two"):
                h.check(straight, "the name belongs to the part with the reference point")
            else:
                h.check(crossed, "the name belongs to the part with the reference point")
        h.close(r1.area + r2.area, poly.area, 1e-5, "areas add up")
        h.check(AND(near_vec(poly.vn, unit, TOL), len(poly.pts) == n), "the polygon is kept")
    return fn


def nocut(shape, what):
    """Chains that do not cut the polygon."""
    def fn(h):
        poly = Polygon(h.array(embed("xy", SHAPE[shape])), name="p")
        s, t = h.real("s", M, 1 - M), h.real("t", M, 1 - M)
        h.assume(OR(s < t - M, s > t + M))
        a, b, c = SHAPE[shape][:3]
        e = lambda x: (a[0] + (b[0] - a[0]) * x, a[1] + (b[1] - a[1]) * x)  # noqa: E731
        chain = {"along": [e(s), e(t)], "edge": [a, b], "vertex-edge": [a, e(s)],
                 "edge-vertex": [e(s), b],
                 "outside": [(s - 9, t), (s - 9, t + 3)], "one": [e(s)]}[what]
        r = raises(lambda: slice_polygon(poly, h.array(embed("xy", chain))), Exception)
        h.check(r is not None, "a chain that does not cut the polygon is reported")
    return fn


def cases(tier):
    E, V = (lambda *a: ("e",) + a), (lambda k: ("v", k))
    q = [  # case 1: two edges
        ("square", "xy", E(0), E(2), []), ("square", "xy", E(3), E(1), []),
        ("square", "xy", E(1), E(0), []), ("square", "xy", E(3), E(0, 0.25), [(1, 1)]),
        ("square", "yz", E(0, 0.75), E(3, 0.5), [((0.5, 1.5), 1)], True, 1),
        ("pent", "xy", E(4), E(2), [], False, 2), ("lshape", "xy", E(0), E(2, 0.5), []),
        ("lshape", "xy", E(5), E(3, 0.5), []), ("lshape", "xy", E(1, 0.5), E(5), [(0.5, 0.5)]),
        # case 2: the same edge
        ("square", "xy", E(0), E(0), [(1, 1)]), ("square", "xy", E(3), E(3), [(1, 1)]),
        ("square", "xy", E(2, 0.75), E(2), [(0.5, 1), (1.5, 1)], False, 0, None, True),
        ("square", "xy", E(1, 0.25), E(1), [(0.5, 1)], True, 2),
        ("pent", "xy", E(4, 0.75), E(4), [(2, 2)], False, 0, None, True),
        # case 3: a corner and an edge
        ("square", "xy", V(0), E(1), []), ("square", "xy", E(2), V(0), []),
        ("square", "xy", V(2), E(3), []), ("square", "xy", V(1), E(1), [(1, 1)]),
        ("square", "xy", E(0), V(0), [(1, (0.5, 1.5))]), ("pent", "xy", V(3), E(0), [], True, 1),
        ("lshape", "xy", V(3), E(5), []), ("lshape", "xy", E(0), V(3), []),
        # case 4: two corners
        ("square", "xy", V(0), V(2), []), ("square", "xy", V(3), V(1), [((0.25, 0.75), 0.75)]),
        ("pent", "xy", V(1), V(0), [(2, (1, 3))]), ("pent", "skew", V(4), V(2), [], True, 3),
        ("lshape", "xy", V(3), V(0), []),
        # longer chains with reflex corners
        ("square", "xy", E(0, 0.25), E(0, 0.75), [((0.7, 1), 0.3), (0.6, 1)]),
        ("square", "xy", E(0, 0.75), E(0, 0.25), [((0.7, 1), 0.3), (1.2, 1.5)], True, 1, None, True),
        ("square", "xy", E(3, 0.25), E(3, 0.75), [(0.3, (1, 1.2)), (1.5, 1.8), (1, 0.7)]),
        ("square", "xy", E(1, 0.25), E(3, 0.5), [(1.5, 1), ((0.5, 1.2), 1.5)]),
        ("square", "xy", V(1), E(2, 0.5), [(1, 0.5), (1.5, (0.8, 1.5))]),
        ("square", "xy", E(2, 0.5), V(0), [(1.5, 1), (1, (0.1, 0.8))]),
        ("square", "xy", V(0), V(2), [(1.5, 0.5), ((1.2, 1.7), 1)]),
        ("square", "xy", V(1), V(0), [(1.5, 1), (1, (0.1, 0.8)), (0.5, 1)], True, 1),
        # close to an edge
        ("square", "xy", E(0, 0.25), E(0, 0.75), [(1, (0.0002, 1))]),
        ("square", "xy", V(3), E(1, 0.5), [((0.0002, 1), 1)], True, 1),
        # points outside or on the boundary before and after the chain
        ("square", "xy", E(0), E(1, 0.5), [(1, 1)], False, 0, None, False, (((0, 0),), ())),
        ("square", "xy", E(0), E(1, 0.5), [(1, 1)], True, 0, None, False, (((2, 0),), ((2, 2),))),
        ("square", "xy", E(0, 0.25), E(2, 0.5), [(1, 1)], False, 1, None, False, ((((0, 0.5), -1),), ())),
        ("square", "xy", E(0, 0.25), E(2, 0.25), [(1, 1)], False, 0, None, False, ((), (((1.5, 2.5), 3),))),
        ("square", "xy", V(0), E(2, 0.5), [(1, (0.5, 1.5))], False, 0, None, False, ((((0.5, 1.5), 0),), ())),
        ("square", "xy", V(1), V(3), [(1, (0.5, 1.5))], True, 0, None, False, (((0.5, 0),), ((0, 1.5),))),
        ("square", "xy", E(3), E(2, 0.5), [(1, 1)], False, 2, None, False, (((0, 0.005), (0, 0)), ((2, 2), (2, 1)))),
        # names
        ("square", "xy", E(0), E(2, 0.5), [], False, 0, ("both", (0.01, 1), (1.99, 1))),
        ("square", "xy", E(2), E(0, 0.25), [], False, 0, ("swap", (1.99, 1), (0.01, 1))),
        ("square", "xy", E(1, 0.25), E(3), [], True, 1, ("first", (1, 0.01), (1, 1.99))),
        ("square", "xy", V(0), V(2), [], False, 0, ("second", (0.5, 1.5), (1.5, 0.5))),
        ("square", "xy", V(1), E(3), [], False, 0, ("swap", (1, 0.005), (1, 1.5))),
        ("square", "xy", E(0), E(3), [], False, 0, ("first", (0.005, 0.005), (1.99, 1.99))),
    ]
    if tier != "quick":
        c = {"square": (1, 1), "pent": (2, 2)}
        for sh, n in (("square", 4), ("pent", 5)):
            for i in range(n):
                for j in range(n):
                    fl = (i + j) % 2 == 1
                    for mid in ([], [c[sh]]):
                        if i != j:
                            q.append((sh, "xy", E(i, 0.25), E(j), mid, fl, i))
                        if mid or (i - j) % n not in (0, n - 1, 1):
                            if i != j:
                                q.append((sh, "yz", V(i), V(j), mid, fl, j))
                        if mid or (i - j) % n not in (0, 1):
                            q.append((sh, "xy", V(i), E(j), mid, fl, j))
                            q.append((sh, "xy", E(j), V(i), mid, not fl, 0))
                    if i == j:
                        for r in (False, True):
                            q.append((sh, "xy", E(i, 0.5), E(i), [c[sh]], fl, j, None, r))
                            q.append((sh, "xy", E(i, 0.5), E(i), [c[sh]], not fl, 0, None, r))
    cs, seen = [], set()
    for a in q:
        nm = a[0] + "-" + a[1] + "-" + a[2][0] + str(a[2][1]) + a[3][0] + str(a[3][1]) + \
            f"-{len(a[4])}" + "".join(f"-{x[0] if isinstance(x, tuple) else x}" for x in a[5:9]) + \
            ("-ends" if len(a) > 9 else "")
        while nm in seen:
            nm += "+"
        seen.add(nm)
        cs.append(Case(nm, make_case(*a), "positions on the edges in [0.01,0.99]"))
    cs += [Case(f"nocut-{w}", nocut("square", w), "positions on the edge in [0.01,0.99]")
           for w in ("along", "edge", "vertex-edge", "edge-vertex", "outside", "one")]
    return cs
