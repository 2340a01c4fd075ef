"""Interpolation, rolling, edges and random helpers."""
from building3d.geom.points import (many_new_points_between_2_points, new_point_between_2_points,
                                    roll_forward)
from building3d.geom.polygon.edges import polygon_edges
from building3d.random import random_between, random_within
from building3d.util.roll_back import roll_back

from symex.ctx import AND, Case

R = 1000
ASSUMPTIONS = ["np.random.random returns any value of [0, 1)",
               "[lo, hi) is checked in exact arithmetic, where the upper limit is never reached;"
               " the last-bit effects of rounding are outside"]


def between(h):
    a, b = h.reals("a", 3, -R, R), h.reals("b", 3, -R, R)
    t = h.real("t", -2, 3)
    r = new_point_between_2_points(h.array(a), h.array(b), t)
    for k in range(3):
        h.close(r[k], a[k] + t * (b[k] - a[k]), 1e-9, "point at the requested fraction")


def many(n):
    def fn(h):
        a, b = h.reals("a", 3, -R, R), h.reals("b", 3, -R, R)
        r = many_new_points_between_2_points(h.array(a), h.array(b), n)
        h.check(tuple(r.shape) == (n + 2, 3), "number of points, end points included")
        for i in range(n + 2):
            for k in range(3):
                h.close(r[i, k], a[k] + (b[k] - a[k]) * i / (n + 1), 1e-9, "evenly spaced points")
        for k in range(3):
            h.check(AND(r[0, k] == a[k], r[n + 1, k] == b[k]), "end points are exact")
    return fn


def roll_pts(n):
    def fn(h):
        rows = [h.reals(f"p{i}_", 3, -R, R) for i in range(n)]
        arr = h.array(rows)
        r = roll_forward(arr)
        h.check(tuple(r.shape) == (n, 3), "size is kept")
        for i in range(n):
            h.check(AND(*[r[i, k] == rows[i - 1][k] for k in range(3)]),
                    "each point moves one place forward")
            h.check(AND(*[arr[i, k] == rows[i][k] for k in range(3)]), "input is left as it was")
        r[0, 0] = 7.0
        h.check(AND(*[arr[i, k] == rows[i][k] for i in range(n) for k in range(3)]),
                "result does not share memory with the input")
    return fn


def roll_list(n):
    def fn(h):
        xs = [h.real(f"x{i}", -R, R) for i in range(n)]
        keep = list(xs)
        r = roll_back(xs)
        h.check(len(r) == n and len(xs) == n, "length is kept")
        for i in range(n):
            h.check(r[i] == keep[(i + 1) % n], "each element moves one place back")
            h.check(xs[i] is keep[i], "input is left as it was")
    return fn


def edges(n):
    def fn(h):
        rows = [h.reals(f"p{i}_", 3, -R, R) for i in range(n)]
        e = polygon_edges(h.array(rows))
        h.check(tuple(e.shape) == (n, 2, 3), "one edge per vertex")
        for i in range(n):
            for k in range(3):
                h.check(AND(e[i, 0, k] == rows[i][k], e[i, 1, k] == rows[(i + 1) % n][k]),
                        "edges join consecutive vertices, closed")
    return fn


def between_rand(h):
    lo, hi = h.real("lo", -R, R), h.real("hi", -R, R)
    u = h.real("u", 0, 1)
    h.assume(u < 1)
    h.queue_random([u])
    v = random_between(lo, hi)
    a, b = (lo, hi) if bool(lo <= hi) else (hi, lo)
    if bool(a == b):
        h.check(v == a, "empty interval gives its only point")
    elif h.symbolic:
        h.check(AND(v >= a, v < b), "random number in [lo, hi)")
        h.check(v == a + u * (b - a), "whole interval is reached")
    else:
        h.check(a <= v <= b, "random number in [lo, hi)")
        h.close(v, a + u * (b - a), 1e-9, "whole interval is reached")


def within_rand(h):
    lim = h.real("lim", -R, R)
    u = h.real("u", 0, 1)
    h.assume(u < 1)
    h.queue_random([u])
    v = random_within(lim)
    if bool(lim < 0):
        h.check(AND(v >= lim, v <= -lim), "random number between a negative limit and its opposite")
        return
    if bool(lim == 0):
        h.check(v == 0, "zero range gives zero")
    elif h.symbolic:
        h.check(AND(v >= -lim, v < lim), "random number in [-lim, lim)")
        h.check(v == lim * (2 * u - 1), "whole interval is reached")
    else:
        h.check(-lim <= v <= lim, "random number in [-lim, lim)")
        h.close(v, lim * (2 * u - 1), 1e-9, "whole interval is reached")


def cases(tier):
    ns = range(0, 5) if tier == "quick" else range(0, 12)
    cs = [Case("between", between, f"points in [-{R},{R}]^3, fraction in [-2,3]"),
          Case("random-between", between_rand, "all limits, all generator values"),
          Case("random-within", within_rand, "all limits, all generator values")]
    cs += [Case(f"many-{n}", many(n), f"{n} new points, all end points") for n in ns]
    cs += [Case(f"rollpts-{n}", roll_pts(n), f"{n} points") for n in (1, 2, 3, 5)]
    cs += [Case(f"rolllist-{n}", roll_list(n), f"{n} elements") for n in (1, 2, 3, 5)]
    cs += [Case(f"edges-{n}", edges(n), f"{n} vertices") for n in (3, 4, 5, 7)]
    return cs
