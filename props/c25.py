"""Batches and stored states of the ray simulation."""
import os
from tempfile import TemporaryDirectory

import numpy as np

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.sim.rays.dump_buffers import dump_buffers, read_buffers
from building3d.sim.rays.simulation_config import SimulationConfig

from props.c24 import setup, sources
from props.common import raises
from symex.ctx import AND, Case, near

TOL = 1e-6
ASSUMPTIONS = [
    "np.save and np.load keep an array as it is (the array stays in memory, an empty file is written)",
    "floats as reals: the velocity recovered from two stored positions has no rounding error",
    "the assumptions of C24 on rooms, directions and step length",
]


def states(h, kind, steps, batch, rays, src, **k):
    with TemporaryDirectory() as tmp:
        sim, _, _ = setup(h, kind, tmp, steps, batch, rays, src, **k)
        sim.run()
        d = sim.sim_cfg.paths["buffer_dir"]
        return read_buffers(d, sim.sim_cfg), sorted(os.listdir(d))


def batches(kind, d, free, base, steps, sizes, absorbers=()):
    def fn(h):
        src = sources(h, kind, free, base)
        batch = h.pick("batch", sizes)
        one, f1 = states(h, kind, steps, steps, d, src, absorbers=absorbers, absorption=lambda w: 0.3125)
        two, f2 = states(h, kind, steps, batch, d, src, absorbers=absorbers, absorption=lambda w: 0.3125)
        h.check(f1 == f2, "same files for any batch size")
        shapes = [(steps + 1, len(d), 3), (steps + 1, len(d)), (steps + 1, len(absorbers))]
        for a, b, what, shp in zip(one, two, ("positions", "energies", "hits"), shapes):
            h.check(tuple(a.shape) == tuple(b.shape) == shp, what + ": one entry per step")
            h.check(AND(*[near(a[ix], b[ix], TOL) for ix in np.ndindex(*shp)]), what + " do not depend on batches")
    return fn


def stored(rays, absorbers, calls, names):
    """Contents written in one or several calls are read back."""
    def fn(h):
        cfg = SimulationConfig(Building([Zone([box(1, 1, 1, name="s")], name="z")], name="b"))
        cfg.paths.update(position_file=names[0], energy_file=names[1], hits_file=names[2])
        total = sum(calls)

        def arr(nm, shape):
            def nest(ix):
                if len(ix) == len(shape):
                    return h.real(nm + "_".join(map(str, ix)), -4, 4)
                return [nest(ix + (i,)) for i in range(shape[len(ix)])]
            return h.array(nest(()))
        pos, enr, hit = arr("p", (total, rays, 3)), arr("e", (total, rays)), arr("h", (total, absorbers))
        with TemporaryDirectory() as tmp:
            e = raises(lambda: read_buffers(tmp, cfg), RuntimeError)
            h.check(e is not None, "a directory without states is reported")
            at = 0
            for n in calls:
                dump_buffers(pos[at:at + n], enr[at:at + n], hit[at:at + n], tmp, cfg, at)
                at += n
            got = read_buffers(tmp, cfg)
            files = len(os.listdir(tmp))
        h.cover("read back")
        h.check(files == 3 * total, "three files per step")
        for a, b, what in zip(got, (pos, enr, hit), ("positions", "energies", "hits")):
            h.check(tuple(a.shape) == tuple(b.shape), what + ": shape")
            h.check(AND(*[a[ix] == b[ix] for ix in np.ndindex(*b.shape)]), what + " are read back")
    return fn


def prepared(h):
    """An existing state directory is used if it is empty."""
    kind = h.pick("dir", ("missing", "empty", "used"))
    with TemporaryDirectory() as tmp:
        d = os.path.join(tmp, "states")
        if kind != "missing":
            os.makedirs(d)
        if kind == "used":
            with open(os.path.join(d, "energy_0.npy"), "w") as f:
                f.write("x")
        e = raises(lambda: setup(h, "box", tmp, 1, 1, "x", (0, 0.375, 1)), Exception)
        ok = os.path.isdir(d)
    h.check((e is not None) == (kind == "used") and ok, "only a directory with states is refused")


DEF = ("position_<step>.npy", "energy_<step>.npy", "hits_<step>.npy")
ALT = ("p.<step>.npy", "p2.<step>.npy", "sub-<step>-h.npy")


def cases(tier):
    cs = []
    ss = [("one", 1, 1, (1,), DEF), ("many", 1, 1, (12,), DEF), ("calls", 2, 2, (2, 3, 1), DEF),
          ("no-absorbers", 2, 0, (2,), DEF), ("names", 1, 2, (3,), ALT), ("twelve", 1, 2, (4, 8), ALT)]
    if tier == "thorough":
        ss += [("hundred", 1, 1, (101,), DEF), ("rays", 12, 3, (3, 4), DEF)]
    for nm, r, a, calls, names in ss:
        cs.append(Case("stored-" + nm, stored(r, a, calls, names), "all buffer contents"))
    bs = [("x", "box", "x", "x", (0, 0.375, 1), 4, (1, 2), ()),
          ("two", "box", "xz", "z", (1, 0.375, 1.125), 2, (1,), ()),
          ("f", "box", "f", "x", (0, 0.25, 1), 2, (1,), ()),
          ("absorber", "box", "x", "x", (0, 0.25, 1), 4, (1, 2), ((0, 0.25, 1.125), (0.625, 0.375, 1)))]
    if tier == "thorough":
        bs += [("z", "box", "z", "z", (0, 0.25, 1.125), 6, (1, 2, 3), ()),
               ("b", "box", "b", "y", (0, 0.25, 1), 2, (1,), ()),
               ("tri", "tri", "x", "x", (0, 0.75, 1), 3, (1,), ())]
    for nm, kind, d, free, base, steps, sizes, ab in bs:
        cs.append(Case("batches-" + nm, batches(kind, d, free, base, steps, sizes, ab),
                       f"{steps} steps, batches of {sizes}, source anywhere along the free axis"))
    cs.append(Case("prepared", prepared, "state directory missing, empty, in use"))
    return cs
