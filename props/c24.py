"""Steps of the ray simulation."""
import os
from itertools import product
from tempfile import TemporaryDirectory

from building3d.geom.building import Building
from building3d.geom.polygon import Polygon
from building3d.geom.solid import Solid
from building3d.geom.solid.box import box
from building3d.geom.solid.floor_plan import floor_plan
from building3d.geom.wall import Wall
from building3d.geom.zone import Zone
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig

from symex.ctx import AND, Case, OR, dot, near, truth

TOL = 1e-7
DT, SPEED = 0.125, 3.0
ASSUMPTIONS = [
    "initial directions are fixed vectors (all signs and several slopes) of rational length;"
    " the source, the absorptions and the absorbers are symbolic",
    f"step length {DT * SPEED}, cell size 1, rooms at least four steps wide; the room is convex",
    "no JIT: the loop is executed from its Python source, one ray after the other",
]

# directions with rational length: d and |d|
DIRS = {"a": (2, 2, 1), "b": (-2, 1, -2), "c": (1, -2, 2), "x": (3, 0, 0), "z": (0, 0, -3),
        "f": (-9 / 5, 12 / 5, 0), "g": (12 / 5, 0, -9 / 5), "h": (0, -9 / 5, -12 / 5)}


def rand_for(d):
    """Values of rand() that give the direction d (before scaling)."""
    return [(x / 4 + 1) / 2 for x in d]


def room(kind):
    if kind == "box":
        return box(2, 2, 2, (-0.75, -1, 0.25), "s")
    if kind == "flat":
        return box(3, 2, 1.75, (-1.5, 0.5, -1), "s")
    # 3-4-5 triangle
    return floor_plan([(0, 0), (4, 0), (0, 3)], 2, name="s")


def setup(h, kind, tmp, steps, batch, rays, source, absorbers=(), radius=0.25, absorption=True):
    plate = kind[:5] == "plate"
    s = room("box" if plate else kind)
    b = Building([Zone([s], name="z")], name="b")
    if plate:  # a partition; its normal is along (in) or against (out) the side of the source
        pts = [[0.75, -1, 0.25], [0.75, 1, 0.25], [0.75, 1, 2.25], [0.75, -1, 2.25]]
        b["z"].add_solid(Solid([Wall([Polygon(h.array(pts if kind == "plate-out" else pts[::-1]), name="p")],
                                     name="plate")], name="t"))
    cfg = SimulationConfig(b)
    cfg.verbose = False
    cfg.engine.update(time_step=DT, num_steps=steps, batch_size=batch, voxel_size=1.0,
                      search_transparent=False)
    cfg.rays.update(num_rays=len(rays), ray_speed=SPEED, source=tuple(source),
                    absorbers=[tuple(a) for a in absorbers], absorber_radius=radius)
    cfg.paths.update(project_dir=tmp, buffer_dir=os.path.join(tmp, "states"))
    planes = []
    for w in s.children.values():
        for p in w.children.values():
            a = absorption(w.name) if callable(absorption) else 0.125
            cfg.set_surface_param("absorption", p.path, a, b)
            planes.append((p.vn, dot(p.vn, p.pts[0]), a))
    if plate:
        a = absorption("plate")
        cfg.set_surface_param("absorption", "b/z/t/plate/p", a, b)
        planes = [x for x in planes if float(x[0][0]) < 0.5] + [((1, 0, 0), 0.75, a)]
    h.queue_random([x for d in rays for x in rand_for(DIRS[d])])
    return Simulation(b, cfg), planes, s


def simulate(h, *a, **k):
    with TemporaryDirectory() as tmp:
        sim, planes, s = setup(h, a[0], tmp, *a[1:], **k)
        return sim.run() + (planes, s)


def reflect(v, n):
    d = 2 * dot(v, n)
    return [v[k] - d * n[k] for k in range(3)]


def explanations(v, planes, most):
    """All velocities after reflecting from up to `most` walls in turn (each while moving towards it)."""
    out = [(v, ())]
    last = [(v, ())]
    for _ in range(most):
        nxt = []
        for u, seq in last:
            for i, (n, _, _) in enumerate(planes):
                if float(dot(u, n)) > 1e-9:
                    nxt.append((reflect(u, n), seq + (i,)))
        out += nxt
        last = nxt
    return out


def same(u, v):
    return all(abs(float(a) - float(b)) < 1e-6 for a, b in zip(u, v))


def follow(h, pos, enr, hits, planes, rays, absorbers=(), radius=0.25, most=3):
    """Check the recorded states of every ray."""
    steps = pos.shape[0] - 1
    for r, d in enumerate(rays):
        v = [float(x) for x in DIRS[d]]
        dead = False
        for i in range(steps):
            p, q = pos[i, r], pos[i + 1, r]
            e, f = enr[i, r], enr[i + 1, r]
            h.check(AND(f >= 0, f <= e), "energy does not increase or become negative")
            for n, c, _ in planes:
                h.check(dot(n, q) <= c + TOL, "the ray stays in the room")
            if dead:
                h.check(AND(*[q[k] == p[k] for k in range(3)]), "a ray without energy stays")
                h.check(f == 0, "a ray without energy has none later")
                continue
            taken = None
            for a in range(len(absorbers)):
                d2 = sum((p[k] - absorbers[a][k]) * (p[k] - absorbers[a][k]) for k in range(3))
                if truth(d2 < radius * radius):
                    taken = a
                    break
            if taken is not None:
                h.check(f == 0, "the absorber takes all the energy")
                h.check(AND(*[q[k] == p[k] for k in range(3)]), "an absorbed ray stays")
                dead = True
                continue
            if truth(f == 0):
                dead = True
                h.check(AND(*[q[k] == p[k] for k in range(3)]), "a ray without energy stays")
                h.check(OR(*[sum(planes[j][2] for j in seq) >= e - 2e-6
                             for _, seq in explanations(v, planes, most) if seq]),
                        "energy lost in reflections")
                continue
            dp = [(q[k] - p[k]) * (1 / DT) for k in range(3)]
            if truth(AND(*[near(x, 0, 1e-9) for x in dp])):
                # the ray stayed: next step it must still have its velocity
                h.fail("a live ray moves")
            exp = [(u, seq) for u, seq in explanations(v, planes, most)
                   if truth(AND(*[near(dp[k], float(u[k]), 1e-6) for k in range(3)]))]
            h.check(bool(exp), "the step is the velocity, reflected from walls, times the time step")
            if not exp:
                return
            h.check(OR(*[AND(near(e - f, sum((planes[j][2] for j in seq), 0), TOL),
                             *[dot(planes[j][0], p) >= planes[j][1] - 2 * DT * SPEED for j in seq])
                         for _, seq in exp]), "energy drops by the absorption of the walls it reflects from")
            v = exp[0][0]
    for i in range(steps):
        for a in range(len(absorbers)):
            t = 0
            for r in range(len(rays)):
                p = pos[i, r]
                first = None
                for b in range(len(absorbers)):
                    d2 = sum((p[k] - absorbers[b][k]) * (p[k] - absorbers[b][k]) for k in range(3))
                    if first is None and truth(d2 < radius * radius):
                        first = b
                if first == a:
                    t = t + enr[i, r]
            h.check(near(hits[i + 1, a], t, TOL), "hits are the energies handed over")


def sources(h, kind, free, base):
    if kind[:5] == "plate":
        kind = "plate"
    lim = {"plate": ((-0.7, -0.95, 0.3), (0.7, 0.95, 2.2)), "box": ((-0.7, -0.95, 0.3), (1.2, 0.95, 2.2)), "flat": ((-1.45, 0.55, -0.95), (1.45, 2.45, 0.7)),
           "tri": ((0.05, 0.05, 0.05), (3.9, 2.9, 1.95))}[kind]
    src = [h.real("xyz"[k], lim[0][k], lim[1][k]) if "xyz"[k] in free else base[k] for k in range(3)]
    if kind == "tri":
        h.assume(src[0] * 0.6 + src[1] * 0.8 <= 2.35)
    return src


def walk(kind, d, free, base, steps, sym=False):
    def fn(h):
        src = sources(h, kind, free, base)
        memo = {}

        def absorb(w):
            if w not in memo:
                memo[w] = h.real("a_" + w, 0.01, 0.6) if sym else 0.0625 * (2 + len(memo))
            return memo[w]
        pos, enr, hit, planes, _ = simulate(h, kind, steps, steps, d, src, absorption=absorb)
        h.check(tuple(pos.shape) == (steps + 1, len(d), 3) and tuple(enr.shape) == (steps + 1, len(d)),
                "one state per step")
        for r in range(len(d)):
            h.check(AND(*[pos[0, r, k] == src[k] for k in range(3)], enr[0, r] == 1), "initial state")
        follow(h, pos, enr, hit, planes, d)
    return fn


def absorbing(d, free, base, steps, where, rays=1):
    """Absorbers at the given centres; the source moves along the free axes."""
    def fn(h):
        src = sources(h, "box", free, base)
        r = 0.25
        for c in where:  # clear of the absorbers' surface at the first step
            d2 = sum((src[k] - c[k]) * (src[k] - c[k]) for k in range(3))
            h.assume(OR(d2 > (r + 0.01) ** 2, d2 < (r - 0.01) ** 2))
        pos, enr, hit, planes, _ = simulate(h, "box", steps, steps, d, src, absorbers=where, radius=r,
                                            absorption=lambda w: 0.25)
        h.check(tuple(hit.shape) == (steps + 1, len(where)), "one number per absorber and step")
        h.check(AND(*[hit[0, a] == 0 for a in range(len(where))]), "no energy absorbed before the first step")
        follow(h, pos, enr, hit, planes, d, absorbers=where, radius=r)
    return fn


def cases(tier):
    cs = []
    w = [("box-b", "box", "b", "y", (0, 0.25, 1), 2), ("box-x", "box", "x", "x", (0, 0.375, 1), 3),
         ("box-z", "box", "z", "z", (0, 0.25, 1.125), 3), ("box-f", "box", "f", "x", (0, 0.25, 1), 2),
         ("tri-x", "tri", "x", "x", (0, 0.75, 1), 2),
         ("plate-in", "plate-in", "x", "x", (0, 0.375, 1), 3), ("plate-out", "plate-out", "x", "x", (0, 0.375, 1), 3),
         ("two-rays", "box", "xz", "z", (1, 0.25, 1.125), 2)]
    if tier == "thorough":
        w += [("plate-b", "plate-in", "b", "y", (0.5, 0.25, 1), 2), ("plate-a", "plate-in", "a", "z", (0.5, 0.25, 1), 2),
              ("box-a", "box", "a", "x", (0, 0.25, 1), 2), ("box-c", "box", "c", "z", (0, 0.25, 1), 2),
              ("box-xy", "box", "x", "xy", (0, 0.25, 1), 2),
              ("tri-f", "tri", "f", "y", (0.75, 0.75, 1), 2), ("flat-g", "flat", "g", "x", (0, 0.875, 0), 2),
              ("flat-h", "flat", "h", "z", (0.25, 0.875, 0), 3),
              ("box-f4", "box", "f", "y", (0, 0.25, 1), 4), ("box-b3", "box", "b", "z", (0, 0.25, 1), 3)]
    for nm, kind, d, free, base, steps in w:
        cs.append(Case("walk-" + nm, walk(kind, d, free, base, steps), "source anywhere along the free axes"))
    for nm, kind, d, free, base, steps in [("x", "box", "x", "", (0.75, 0.375, 1), 3),
                                           ("corner", "box", "f", "", (-0.5, 0.75, 1), 3)]:
        cs.append(Case("absorption-" + nm, walk(kind, d, free, base, steps, True),
                       "any absorption of each polygon"))
    cs.append(Case("absorbers", absorbing("x", "x", (0, 0.25, 1), 3, [(0, 0.25, 1.125), (0.625, 0.375, 1)]),
                   "source anywhere along an axis, two absorbers"))
    cs.append(Case("absorbers-overlap", absorbing("zx", "z", (0, 0.25, 1), 2,
                                                  [(0.125, 0.25, 0.875), (0, 0.25, 1.125)]),
                   "two rays, overlapping absorbers"))
    return cs
