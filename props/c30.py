"""Impulse response."""
from building3d.sim.rays.impulse_response import impulse_response

from props.common import raises
from symex.ctx import AND, OR, Case

ASSUMPTIONS = ["pandas is run as it is, with the symbolic values as objects"]


class Cfg:
    def __init__(self, dt):
        self.engine = {"time_step": dt}


def ir(n, m):
    def fn(h):
        dt = h.real("dt", 1e-5, 1)
        hits = [[h.real(f"h{i}_{j}", 0, 100) for j in range(m)] for i in range(n)]
        cols = []
        for j in range(m):
            t = 0
            for i in range(n):
                t = t + hits[i][j]
            cols.append(t)
        h.assume(OR(*[c > 1e-3 for c in cols]))
        buf = h.array(hits)
        df = impulse_response(buf, Cfg(dt))
        idx = list(df.index)
        h.check(len(idx) == n, "one row per step")
        h.check(len(list(df.columns)) == m, "one column per absorber")
        for i in range(n):
            h.close(idx[i], dt * i, 1e-9, "row at the time of its step")
        vals = [[df[list(df.columns)[j]].values[i] for j in range(m)] for i in range(n)]
        best = cols[0]
        for c in cols[1:]:
            best = c if bool(c > best) else best
        sums = []
        for j in range(m):
            t = 0
            for i in range(n):
                t = t + vals[i][j]
                h.check(AND(vals[i][j] * best - hits[i][j] <= 1e-6,
                            vals[i][j] * best - hits[i][j] >= -1e-6),
                        "one factor for all absorbers, largest column sums to one")
            sums.append(t)
        h.check(AND(*[s <= 1 + 1e-9 for s in sums]), "column sums at most one")
        h.check(AND(*[buf[i, j] == hits[i][j] for i in range(n) for j in range(m)]),
                "stored hits are not modified")
    return fn


def nohits(n, m):
    def fn(h):
        dt = h.real("dt", 1e-5, 1)
        e = raises(lambda: impulse_response(h.array([[0.0] * m for _ in range(n)]), Cfg(dt)),
                   Exception)
        h.check(e is not None, "no hits at all is an error")
    return fn


def cases(tier):
    sz = [(1, 1), (2, 1), (3, 2), (2, 3)] if tier == "quick" else [
        (n, m) for n in (1, 2, 3, 4, 6) for m in (1, 2, 3)]
    return [Case(f"ir-{n}x{m}", ir(n, m), f"{n} steps, {m} absorbers, hits in [0,100]")
            for n, m in sz] + [Case("nohits", nohits(3, 2), "3 steps, 2 absorbers")]
