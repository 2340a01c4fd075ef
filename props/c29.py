"""Closest pairs between two point sets."""
from building3d.geom.points.find_close_pairs import find_close_pairs

from props.common import PLANES, raises, side
from symex.ctx import AND, NOT, OR, Case

ASSUMPTIONS = ["lines of sight within 1e-2 of touching an edge are outside the bounds"]


def emb(plane, u, v):
    o, a, b = PLANES[plane]
    return [o[k] + u * a[k] + v * b[k] for k in range(3)]


def d2(p, q):
    t = 0
    for x, y in zip(p, q):
        t = t + (x - y) * (x - y)
    return t


def index_of(h, row, pts, msg):
    for i, p in enumerate(pts):
        if bool(AND(*[row[k] == p[k] for k in range(3)])):
            return i
    h.fail(msg)


def meets(A, B, C, D):
    s1, s2, s3, s4 = side(A, B, C), side(A, B, D), side(C, D, A), side(C, D, B)
    return AND(NOT(s1 - s2 == 0), OR(AND(s1 >= 0, s2 <= 0), AND(s1 <= 0, s2 >= 0)),
               OR(AND(s3 >= 0, s4 <= 0), AND(s3 <= 0, s4 >= 0)))


def hidden(p, q, polys):
    cs = []
    for s in polys:
        for i in range(len(s)):
            C, D = s[i - 1], s[i]
            if any(x is y for x in (C, D) for y in (p, q)):
                continue
            cs.append(meets(p, q, C, D))
    return OR(*cs) if cs else False


def pairs(plane, A, B0, vis, move):
    def fn(h):
        u, v = move(h)
        B = [(x + u, y + v) for x, y in B0]
        P, Q = [emb(plane, *x) for x in A], [emb(plane, *x) for x in B]
        n0, n1 = len(P), len(Q)
        D = {(i, j): d2(P[i], Q[j]) for i in range(n0) for j in range(n1)}
        ks = list(D)
        adm = {}
        for (i, j) in ks:
            if vis:
                for s in (A, B):
                    for k in range(len(s)):
                        C, E = s[k - 1], s[k]
                        for z in (side(A[i], B[j], C), side(A[i], B[j], E), side(C, E, A[i]),
                                  side(C, E, B[j])):
                            h.assume(OR(z == 0, z > 1e-2, z < -1e-2))
                adm[i, j] = not bool(hidden(A[i], B[j], (A, B)))
            else:
                adm[i, j] = True
        n = h.int("n", 1, min(n0, n1) + 1)
        # the greedy choice may be cut short: find out by doing it
        try:
            r = find_close_pairs(h.array(P), h.array(Q), n, vis_only=vis)
        except ValueError:
            r = None
        if r is None:
            got = greedy(D, adm)
            h.check(len(got) < n, "error only when there are not enough pairs")
            return
        h.check(tuple(r.shape) == (n, 2, 3), "number of pairs")
        left0, left1 = set(range(n0)), set(range(n1))
        for k in range(n):
            i = index_of(h, r[k, 0], P, "first point of the pair is from the first set")
            j = index_of(h, r[k, 1], Q, "second point of the pair is from the second set")
            h.check(i in left0 and j in left1, "no point is used twice")
            h.check(adm[i, j], "only visible pairs")
            h.check(AND(*[D[i, j] <= D[a, b] + 1e-9 for a in left0 for b in left1 if adm[a, b]]),
                    "nearest among the unused points")
            left0.discard(i)
            left1.discard(j)
    return fn


def greedy(D, adm):
    """Greedy pairing, any order among equal distances."""
    left = [k for k in D if adm[k]]
    out = []
    while left:
        best = left[0]
        for k in left[1:]:
            if bool(D[k] < D[best]):
                best = k
        out.append(best)
        left = [k for k in left if k[0] != best[0] and k[1] != best[1]]
    return out


def both(h):
    return h.real("u", -4, 4), h.real("v", -4, 4)


def along(v):
    return lambda h: (h.real("u", -4, 4), v)


def along_y(u):
    return lambda h: (u, h.real("v", -4, 4))


T3 = [(0, 0), (2, 0), (0.5, 1.5)]
S2 = [(0, 0), (1, 0.25)]
T3B = [(0, 0), (1, 0), (0.25, 0.75)]
FLAT = [(-3, 0), (3, 0), (0, -0.5)]  # the nearest corner is behind the long edge
HIGH = [(0, 1), (0.5, 1.5)]
S4 = [(0, 0), (3, 0), (3, 2), (0, 2)]


def cases(tier):
    cs = [Case("free-2x2", pairs("xy", S2, [(0, 0), (0.5, 1)], False, both), "second set anywhere"),
          Case("free-3x3", pairs("xy", T3, T3B, False, along(0.375)), "second set moved along u"),
          Case("free-3x2-tilt", pairs("tilt", T3, S2, False, along_y(0.25)),
               "second set moved along v"),
          Case("visible-3x2", pairs("xy", T3, S2, True, along(2.125)), "second set moved along u"),
          Case("visible-2x3", pairs("xy", S2, T3B, True, along_y(0.375)), "second set moved along v"),
          Case("behind-2x3", pairs("xy", HIGH, FLAT, True, along(0.0625)), "second set moved along u"),
          Case("behind-3x2", pairs("yz", FLAT, HIGH, True, along(0.0625)), "second set moved along u")]
    if tier != "quick":
        cs += [Case("visible-3x3", pairs("xy", T3, T3B, True, along(2.125)), "moved along u"),
               Case("visible-4x3", pairs("xy", S4, T3B, True, along(0.625)), "moved along u"),
               Case("free-3x3-uv", pairs("xy", T3, T3B, False, both), "second set anywhere"),
               Case("visible-3x3-v", pairs("zx", T3, T3B, True, along_y(1.125)), "moved along v"),
               Case("visible-4x4", pairs("xy", S4, [(0, 0), (1, 0), (1, 1), (0.25, 1)], True,
                                         along(0.625)), "moved along u")]
    return cs
