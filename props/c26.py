"""Surface parameters: settings on paths and values by polygon number."""
from tempfile import TemporaryDirectory

from building3d.geom.building import Building
from building3d.geom.solid.box import box
from building3d.geom.zone import Zone
from building3d.io.arrayformat import to_array_format
from building3d.sim.rays.simulation import Simulation
from building3d.sim.rays.simulation_config import SimulationConfig

from props.common import raises
from symex.ctx import AND, Case

ASSUMPTIONS = ["paths are picked from the paths of the building (all levels) and from paths not in it;"
               " the values are symbolic"]


def model(two_zones):
    a = box(1, 1, 1, (0, 0, 0), "s")
    b = box(1, 1, 1, (3, 0, 0), "s1")
    if two_zones:
        return Building([Zone([a], name="z"), Zone([b, box(1, 1, 1, (6, 0, 0), "s")], name="z1")], name="b")
    return Building([Zone([a, b], name="z")], name="b")


PATHS = ["b", "b/z", "b/z/s", "b/z/s1", "b/z/s/floor", "b/z/s1/wall_0", "b/z/s/floor/floor",
         "b/z/s1/wall_0/poly_0", "b/z1", "b/z1/s", "b/z1/s/floor", "b/z1/s1/ceiling/ceiling"]


def below(path, top):
    return path == top or path.startswith(top + "/")


def settings(n, two_zones, paths, through):
    def fn(h):
        b = model(two_zones)
        polys = [p.path for z in b.children.values() for s in z.children.values()
                 for w in s.children.values() for p in w.children.values()]
        cfg = SimulationConfig(b)
        cfg.verbose = False
        default = h.real("default", 0, 1)
        early = h.flag("default_first")
        if early:
            cfg.surfaces["absorption"]["default"] = default
        want = {}
        for i in range(n):
            top = h.pick(f"path{i}", paths)
            v = h.real(f"v{i}", 0, 1)
            if not any(below(p, top) for p in polys):
                e = raises(lambda: cfg.set_surface_param("absorption", top, v, b), ValueError, KeyError)
                h.check(e is not None, "a path that is not in the building is rejected")
                continue
            cfg.set_surface_param("absorption", top, v, b)
            for p in polys:
                if below(p, top):
                    want[p] = v
        if not early:
            cfg.surfaces["absorption"]["default"] = default
        h.cover("set")
        h.check(AND(*[cfg.surfaces["absorption"][p] == want.get(p, default) for p in polys]),
                "the setting holds for the polygons below the path")
        if through == "simulation":
            with TemporaryDirectory() as tmp:
                cfg.engine.update(num_steps=1, batch_size=1, voxel_size=1.0, search_transparent=False)
                cfg.paths.update(project_dir=tmp, buffer_dir=tmp + "/states")
                vals = Simulation(b, cfg).surf_absorption
        else:
            e = raises(lambda: cfg.surface_params_to_array("absorption", b), RuntimeError)
            h.check(e is not None, "polygons without numbers are reported")
            to_array_format(b)
            vals = cfg.surface_params_to_array("absorption", b)
        h.check(len(vals) == len(polys), "one value per polygon")
        nums = {p: b.get(p).num for p in polys}
        h.check(sorted(nums.values()) == list(range(len(polys))), "polygons are numbered from zero")
        h.check(AND(*[vals[nums[p]] == want.get(p, default) for p in polys]),
                "values by polygon number are those set")
    return fn


def cases(tier):
    cs = [Case("none", settings(0, False, PATHS, "simulation"), "no setting, any default"),
          Case("one-array", settings(1, True, PATHS, "array"), "one setting on any path"),
          Case("one-simulation", settings(1, False, PATHS, "simulation"), "one setting on any path"),
          Case("two-simulation", settings(2, False, PATHS[:4] + PATHS[6:8], "simulation"),
               "two settings on the paths of a two-solid building")]
    if tier == "thorough":
        cs += [Case("two-zones", settings(2, True, PATHS, "simulation"), "two settings, two zones"),
               Case("three", settings(3, False, PATHS[:8:2] + ["b/z1", "b/z/s1/wall_0/wall_0"], "array"), "three settings")]
    return cs
