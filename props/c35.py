"""Arrays handed to the drawing library: meshes, trails, points and their energies."""
import os
import sys
import tempfile
import types


class PolyData:
    def __init__(self, points=None, faces=None, lines=None, **kw):
        self.points, self.faces, self.lines = points, faces, lines
        self.scalars, self.active = {}, None

    def __setitem__(self, key, value):
        self.scalars[key] = value
        self.active = self.active or key

    def __getitem__(self, key):
        return self.scalars[key]

    def set_active_scalars(self, name, *a, **kw):
        assert name in self.scalars
        self.active = name

    def frame(self):
        return self.points, self.lines, self.faces, dict(self.scalars), self.active


class Plotter:
    made = []

    def __init__(self, *a, off_screen=None, **kw):
        self.off_screen, self.drawn, self.frames, self.shown, self.file = off_screen, [], [], [], None
        Plotter.made.append(self)

    def add_mesh(self, mesh, color=None, **kw):
        self.drawn.append((mesh, color, kw))

    def write_frame(self):
        self.frames.append([m.frame() for m, _, _ in self.drawn])

    def show(self, screenshot=None, **kw):
        self.shown.append((screenshot, screenshot and os.path.isdir(os.path.dirname(screenshot))))

    def open_gif(self, name, **kw):
        self.file = ("gif", name)

    def open_movie(self, name, **kw):
        self.file = ("mp4", name)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **kw: None


FAKE = types.ModuleType("pyvista")
FAKE.PolyData, FAKE.Plotter = PolyData, Plotter
sys.modules["pyvista"] = FAKE

from building3d.display.plot_objects import plot_objects  # noqa: E402
from building3d.sim.rays.movie_from_buffer import make_movie_from_buffer  # noqa: E402
from building3d.sim.rays.movie_from_buffer import position_buffer_to_lines  # noqa: E402
from building3d.sim.rays.ray_buff_plotter import RayBuffPlotter  # noqa: E402
from building3d.sim.rays.simulation_config import SimulationConfig  # noqa: E402

from props.common import raises  # noqa: E402
from props.models import build, polys  # noqa: E402
from symex.ctx import AND, Case  # noqa: E402

ASSUMPTIONS = [
    "pyvista is replaced by a recorder of what is handed to it (points, faces, lines, scalars,"
    " colours, frames); what it draws from them is outside",
    "polygon shapes are fixed, positions and sizes symbolic",
]
TREE = {"z": {"s": {"w": {"p": "tri:skew:s", "q": "ell:yz"}, "v": {"p": "hex:tilt:t"}},
              "t": {"w": {"p": "sq:xy:s"}}}}


def flat(x):
    out = []
    for v in x:
        out += flat(v) if hasattr(v, "__len__") else [int(v)]
    return out


def cells(x):
    """Cells of a connectivity list [n, i_1 .. i_n, m, ...]; None if it is malformed."""
    x, out = flat(x), []
    while x:
        n = x[0]
        if n < 1 or len(x) < n + 1:
            return None
        out.append(x[1:n + 1])
        x = x[n + 1:]
    return out


def eq(a, b):
    return len(a) == len(b) and AND(*[x == y for x, y in zip(a, b)])


def points(h, got, want, msg):
    h.check(len(got) == len(want), msg + ": number")
    h.check(AND(*[g[k] == w[k] for g, w in zip(got, want) for k in range(3)]), msg)


def buffers(h, steps, rays):
    pos = [[[h.real(f"x{t}_{r}_{k}", -100, 100) for k in range(3)] for r in range(rays)]
           for t in range(steps)]
    enr = [[h.real(f"e{t}_{r}", 0, 1) for r in range(rays)] for t in range(steps)]
    return pos, enr


def is_mesh(h, mesh, obj, msg):
    want = [(p.pts[int(a)], p.pts[int(b)], p.pts[int(c)]) for p in polys(obj) for a, b, c in p.tri]
    got = cells(mesh.faces)
    h.check(got is not None and len(got) == len(want) and all(len(c) == 3 for c in got), msg + ": triangles")
    for c, w in zip(got, want):
        h.check(all(0 <= i < len(mesh.points) for i in c), msg + ": indices")
        points(h, [mesh.points[i] for i in c], w, msg)


def trails(h, verts, lines, pos, msg):
    """One line per ray through its positions in order."""
    got = cells(lines)
    n, m = len(pos), len(pos[0])
    h.check(got is not None and len(got) == m and len(verts) == n * m, msg + ": one line per ray")
    for r, c in enumerate(got):
        h.check(len(c) == n and all(0 <= i < len(verts) for i in c), msg + ": one point per step")
        points(h, [verts[i] for i in c], [pos[t][r] for t in range(n)], msg)
    return got


def lines(steps, rays):
    def fn(h):
        pos, enr = buffers(h, steps, rays)
        v, ix = position_buffer_to_lines(h.array(pos))
        trails(h, v, ix, pos, "lines of the movie")
        p = RayBuffPlotter(None, h.array(pos), h.array(enr))
        points(h, p.get_points(), pos[-1], "latest positions")
        v, ix = p.get_lines()
        trails(h, v, [[len(c)] + list(c) for c in ix], pos, "lines of the plot")
    return fn


class Thing:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, (lambda x: lambda: x)(v))


def plot(n, out):
    def fn(h):
        Plotter.made.clear()
        b = build(h, TREE)
        pos, enr = buffers(h, 3, 2)
        rb = RayBuffPlotter(b, h.array(pos), h.array(enr))
        cloud = Thing(get_points=h.array(pos[0]))
        both = Thing(get_points=h.array(pos[1]), get_lines=(h.array(pos[2]), [[1, 0]]))
        objs = [b, rb, cloud, both][:n]
        cols = []
        if h.flag("coloured"):
            cols = [[h.real(f"c{i}{k}", 0, 1) for k in range(3)] for i in range(n)]
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "sub", "x.png") if out else None
            plot_objects(tuple(objs), path, colors=cols)
            h.check(len(Plotter.made) == 1, "one window")
            pl = Plotter.made[0]
            h.check(len(pl.shown) == 1 and pl.shown[0][0] == path, "shown or saved to the file given")
            h.check(bool(pl.off_screen) == out and (not out or pl.shown[0][1]), "directory of the image exists")
        h.check(len(pl.drawn) == [1, 3, 4, 6][n - 1], "everything is drawn once")
        owner = [0, 1, 1, 2, 3, 3]
        seen = []
        for (m, col, _), o in zip(pl.drawn, owner):
            kind = "mesh" if m.faces is not None else "lines" if m.lines is not None else "points"
            seen.append((o, kind))
            if kind == "mesh":
                is_mesh(h, m, b, "building")
            elif (o, kind) == (1, "lines"):
                trails(h, m.points, m.lines, pos, "lines of the rays")
            elif kind == "lines":
                h.check(cells(m.lines) == [[1, 0]], "lines")
                points(h, m.points, pos[2], "points of the lines")
            else:
                points(h, m.points, pos[{1: 2, 2: 0, 3: 1}[o]], "points")
            if cols:
                h.check(eq(list(col), cols[o]), "drawn in the colour given")
            else:
                h.check(len(list(col)) == 3 and AND(*[AND(c >= 0, c <= 1) for c in col]), "some colour")
        h.check(sorted(seen) == sorted([(0, "mesh"), (1, "lines"), (1, "points"), (2, "points"),
                                        (3, "lines"), (3, "points")][:len(seen)]), "each kind is drawn once")
    return fn


def refused(h):
    b = build(h, TREE)
    n = h.int("n", 0, 3)
    c = h.int("c", 0, 3)
    h.cover("called")
    e = raises(lambda: plot_objects((b,) * n, "/nonexistent/x.png" if n == 0 or c not in (0, n) else None,
                                    colors=[[0.0, 0, 1]] * c), ValueError)
    h.check((e is not None) == (n == 0 or c not in (0, n)), "wrong numbers of objects and colours are refused")


def movie(steps, rays, ext):
    def fn(h):
        Plotter.made.clear()
        b = build(h, TREE)
        pos, enr = buffers(h, steps, rays)
        for t in range(steps - 1):  # so that the step shown is known
            h.assume(pos[t][0][0] + 0.01 <= pos[t + 1][0][0])
        cfg = SimulationConfig(b)
        trail = h.int("trail", 1, steps + 1)
        cfg.visualization["ray_trail_length"] = trail
        name = "film" + ext
        if ext not in (".gif", ".mp4", ".GIF"):
            e = raises(lambda: make_movie_from_buffer(name, b, h.array(pos), h.array(enr), cfg, verbose=False),
                       ValueError)
            h.check(e is not None, "other kinds of files are refused")
            return
        make_movie_from_buffer(name, b, h.array(pos), h.array(enr), cfg, verbose=False)
        h.check(len(Plotter.made) == 1, "one movie")
        pl = Plotter.made[0]
        h.check(pl.file == (ext[1:].lower(), name), "file as given")
        h.check(len(pl.frames) >= steps - 2, "frames")
        h.check(len(pl.drawn) == 3, "building, points and lines")
        is_mesh(h, pl.drawn[0][0], b, "building")
        first = None
        for i, fr in enumerate(pl.frames):
            (pp, _, _, ps, pa), = [f for f in fr[1:] if f[1] is None]
            (lp, li, _, ls, la), = [f for f in fr[1:] if f[1] is not None]
            h.check(len(pp) == rays, "one point per ray")
            at = [t for t in range(steps) if bool(AND(*[pp[r][k] == pos[t][r][k] for r in range(rays)
                                                        for k in range(3)]))]
            first = at[0] - i if first is None and at else first
            h.check(first is not None and i + first in at, "frames show one step after the other")
            t = i + first
            h.check(pa == "energy" and eq(list(ps["energy"]), enr[t]), "energies of the points")
            s = max(0, t + 1 - trail)
            c = trails(h, lp, li, pos[s:t + 1], "trails of the last steps")
            e = list(ls["energy"])
            h.check(la == "energy" and len(e) == len(lp), "one energy per point of the trails")
            h.check(AND(*[e[c[r][k]] == enr[s + k][r] for r in range(rays) for k in range(t + 1 - s)]),
                    "energies of the trails are those of the ray at the step")
        h.check(first is not None and first <= 1 and len(pl.frames) + first >= steps - 1,
                "no step in between is left out")
    return fn


def cases(tier):
    B = "positions in [-100,100]^3, energies in [0,1]"
    cs = [Case(f"lines-{n}x{m}", lines(n, m), B) for n, m in ((1, 1), (3, 2), (2, 3))]
    cs += [Case(f"plot-{n}-{'file' if o else 'window'}", plot(n, o), B)
           for n, o in ((1, True), (2, False), (4, True))]
    cs += [Case("refused", refused, "0 to 3 objects and colours")]
    cs += [Case(f"movie-{n}x{m}", movie(n, m, e), B + ", any trail length")
           for n, m, e in ((4, 2, ".gif"), (4, 3, ".mp4"), (5, 1, ".GIF"))]
    cs += [Case("movie-avi", movie(3, 1, ".avi"), B)]
    if tier == "thorough":
        cs += [Case(f"movie-{n}x{m}", movie(n, m, ".mp4"), B + ", any trail length") for n, m in ((8, 3), (6, 5))]
        cs += [Case(f"lines-{n}x{m}", lines(n, m), B) for n, m in ((8, 5), (5, 8))]
    return cs
