"""Assembled meshes."""
from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone

from symex.ctx import AND, Case

UV = {3: [(0, 0), (2, 0), (1, 2)], 4: [(0, 0), (2, 0), (2, 1), (0, 1)],
      6: [(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)]}
ASSUMPTIONS = ["polygon shapes are fixed (3, 4 or 6 corners); their positions are symbolic"]


def poly(h, i, n):
    x, y, z = h.real(f"x{i}", -50, 50), h.real(f"y{i}", -50, 50), h.real(f"z{i}", -50, 50)
    return Polygon(h.array([[x + a, y + b, z] for a, b in UV[n]]), name=f"p{i}")


def same_mesh(h, mesh, polys, what):
    pts, tri = mesh
    n = sum(len(p.pts) for p in polys)
    t = sum(len(p.tri) for p in polys)
    h.check(tuple(pts.shape) == (n, 3) and tuple(tri.shape) == (t, 3), f"{what}: sizes")
    i = j = 0
    for p in polys:
        for q in p.pts:
            h.check(AND(*[pts[i, k] == q[k] for k in range(3)]), f"{what}: vertices in order")
            i += 1
        for f in p.tri:
            for c in range(3):
                v = int(tri[j, c])
                h.check(0 <= v < n, f"{what}: vertex index in range")
                h.check(AND(*[pts[v, k] == p.pts[int(f[c])][k] for k in range(3)]),
                        f"{what}: triangle corners as in the polygon")
            j += 1


def walls(sizes):
    """A wall for every group of sizes; empty groups are empty walls."""
    def fn(h):
        i = 0
        ws, allp = [], []
        for k, grp in enumerate(sizes):
            ps = []
            for n in grp:
                ps.append(poly(h, i, n))
                i += 1
            ws.append((Wall(ps, name=f"w{k}"), ps))
            allp += ps
        lvl = h.pick("level", ["wall", "solid", "zone", "building"])
        if lvl == "wall":
            for w, ps in ws:
                if ps:
                    same_mesh(h, w.get_mesh(), ps, "wall")
            return
        if lvl == "solid":
            same_mesh(h, Solid([w for w, _ in ws], name="s").get_mesh(), allp, "solid")
            return
        sol = [Solid([w], name=f"s{k}") for k, (w, _) in enumerate(ws)]
        if lvl == "zone":
            same_mesh(h, Zone(sol, name="z").get_mesh(), allp, "zone")
            return
        zs = [Zone([s], name=f"z{k}") for k, s in enumerate(sol)]
        same_mesh(h, Building(zs, name="b").get_mesh(), allp, "building")
    return fn


def cases(tier):
    groups = [[[4]], [[3, 4], [6]], [[4, 3, 6], [3]], [[4], [], [3]], [[], [4], [3]],
              [[3], [], [], [4, 6]], [[4], [3], []]]
    if tier != "quick":
        groups += [[[a, b], [c], [], [d]] for a in (3, 6) for b in (4, 3) for c in (4, 6)
                   for d in (3, 4)]
    return [Case("walls-" + "_".join("".join(map(str, g)) or "0" for g in gs), walls(gs),
                 "all positions in [-50,50]^3, any level") for gs in groups]
