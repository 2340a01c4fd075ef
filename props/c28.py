"""Cyclic buffer."""
from building3d.types.cyclic_buffer import convert_to_contiguous, cyclic_buf

from symex.ctx import AND, Case


def fifo(size, nmax, width):
    def fn(h):
        start = h.int("start", 0, size - 1)
        buf = h.array([[h.real(f"init{i}_{j}") for j in range(width)] for i in range(size)])
        head = tail = start
        n = h.int("n", 0, nmax)
        pushed = []
        for i in range(n):
            el = [h.real(f"e{i}_{j}") for j in range(width)]
            pushed.append(el)
            buf, head, tail = cyclic_buf(buf, head, tail, h.array(el), size)
            h.check(AND(0 <= head, head < size, 0 <= tail, tail < size), "indices stay in range")
        out = convert_to_contiguous(buf, head, tail)
        exp = pushed[-(size - 1):] if n else []
        h.check(out.shape[0] == len(exp), "number of elements in the view")
        for i, el in enumerate(exp):
            h.check(AND(*[out[i, j] == el[j] for j in range(width)]), f"element {i} of the view")
        if not exp:
            h.check(True, "empty view")
    return fn


def cases(tier):
    cs = []
    for size in (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6):
        nmax = 2 * size + 2
        cs.append(Case(f"fifo-{size}", fifo(size, nmax, 2),
                       f"size {size}, any start index, 0..{nmax} insertions of any values"))
    return cs
