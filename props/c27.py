"""Wildcard paths: filling and searching."""
import os
from tempfile import TemporaryDirectory

from building3d.paths.wildcardpath import WildcardPath

from props.common import raises
from symex.ctx import Case

ASSUMPTIONS = ["wildcard values are non-negative integers without leading zeros, wildcards are separated by"
               " text; names and patterns are picked from fixed sets"]

# pattern, wildcards, near misses made from the values: must not be found
PATTERNS = {
    "plain": ("file_<n>.txt", ["n"], ["xfile_{n}.txt", "file_{n}.txt.bak", "file_{n}_txt", "file_.txt", "file_a.txt",
                                      "sub/file_{n}.txt", "file_{n}.tx", "File_{n}.txt", "file_-{n}.txt"]),
    "two": ("a<i>b<j>", ["i", "j"], ["a{i}b", "ab{j}", "a{i}b{j}c", "ca{i}b{j}", "a{i}c{j}", "a{i}/b{j}"]),
    "dirs": ("run_<job>/step.<k>.npy", ["job", "k"], ["run_{job}/stepx{k}.npy", "run_{job}/step.{k}-npy",
                                                      "x/run_{job}/step.{k}.npy", "run_{job}/y/step.{k}.npy",
                                                      "run_/step.{k}.npy", "step.{k}.npy"]),
    "repeat": ("d<n>/f<n>_<m>", ["m", "n"], ["d{n}/f{n}", "d{n}/f_{m}", "d{n}/g{n}_{m}"]),
    "special": ("a+b(<n>)[x].c$", ["n"], ["aab({n})[x].c$", "a+b({n})x.c$", "a+b{n}[x].c$", "a+b({n})[x]_c$",
                                          "a+b({n})[x].c"]),
    "names": ("p<n>_q<n_0>_r<n_0_1>", ["n", "n_0", "n_0_1"], ["p{n}_q{n_0}", "p{n}_q{n_0}_r", "q{n_0}_r{n_0_1}"]),
    "start": ("<n>.<m>", ["m", "n"], ["{n}", "{n}x{m}", ".{m}", "{n}.{m}.1", "a{n}.{m}"]),
}


def touch(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("")


def text(pattern, vals):
    out = pattern
    for k, v in vals.items():
        out = out.replace("<" + k + ">", str(v))
    return out


def value(h, name, most):
    """A concrete value of the wildcard (the path branches on it)."""
    x = h.int(name, 0, most)
    for i in range(most):
        if x == i:
            return i
    return most


def search(key, most, decoys):
    pattern, names, misses = PATTERNS[key]

    def fn(h):
        wp = WildcardPath(pattern)
        first = {k: value(h, k, most) for k in names}
        second = dict(first)
        second[names[0]] = 10 * first[names[0]] + 1
        with TemporaryDirectory() as tmp:
            parent = os.path.join(tmp, h.pick("parent", ("top", "file_1.txt", "run_1")))
            os.makedirs(parent)
            want = {}
            for vals in (first, second):
                p = wp.fill(parent=parent, **vals)
                h.check(p == os.path.join(parent, text(pattern, vals)), "filling replaces every wildcard")
                touch(p)
                want[p] = vals
            if decoys:
                touch(os.path.join(parent, h.pick("decoy", misses).format(**first)))
            got = wp.get_matching_paths_dict_values(parent)
            h.check({k: dict(v) for k, v in got.items()} == want, "exactly the filled paths are found, with their values")
            tup = wp.get_matching_paths_namedtuple_keys(parent)
            h.check(sorted((c._asdict(), p)[1] for c, p in tup.items()) == sorted(want)
                    and all(c._asdict() == want[p] for c, p in tup.items()), "named tuples have the same values")
            h.check(sorted(wp.get_matching_paths(parent)) == sorted(want), "paths without filters")
            for k in names:
                for v in {first[k], second[k], first[k] + 1}:
                    h.check(sorted(wp.get_matching_paths(parent, **{k: v}))
                            == sorted(p for p in want if want[p][k] == v), "a filter keeps the matching paths")
            h.check(wp.get_matching_paths(parent, **second)
                    == [p for p in want if want[p] == second], "a filter on all wildcards keeps one path")
            h.check(wp.get_matching_paths(parent, other=first[names[0]]) == [], "a filter on another name keeps none")
    return fn


def inconsistent(h):
    """A path with two values for one wildcard is not the pattern filled with some values."""
    a, b = value(h, "a", 3), value(h, "b", 3)
    if a == b:
        return
    with TemporaryDirectory() as tmp:
        touch(os.path.join(tmp, f"d{a}", f"f{b}_0"))
        wp = WildcardPath("d<n>/f<n>_<m>")
        e = []
        r = raises(lambda: e.append(wp.get_matching_paths_dict_values(tmp)), AssertionError)
        h.check(r is not None or e == [{}], "two values for one wildcard are not accepted")


def rejected(h):
    key = h.pick("pattern", tuple(PATTERNS))
    pattern, names, _ = PATTERNS[key]
    wp = WildcardPath(pattern)
    vals = {k: 1 for k in names}
    how = h.pick("how", ("missing", "extra", "unknown", "none"))
    if how == "missing":
        del vals[names[-1]]
    elif how == "extra":
        vals["zz"] = 1
    elif how == "unknown":
        del vals[names[-1]]
        vals["zz"] = 1
    else:
        vals = {}
    with TemporaryDirectory() as tmp:
        for f in (lambda: wp.fill(**vals), lambda: wp.fill(parent=tmp, **vals), lambda: wp.mkdir(tmp, **vals)):
            h.check(raises(f, ValueError, KeyError) is not None, "missing and unknown names are rejected")
        h.check(os.listdir(tmp) == [], "nothing is created")


def made(h):
    """Directories made from a pattern are found; changing the path changes the pattern."""
    n, m = value(h, "n", 11), value(h, "m", 2)
    with TemporaryDirectory() as tmp:
        wp = WildcardPath(h.pick("before", ("x<k>", "job_<n>/<n>_<m>", "a")))
        wp.path = "job_<n>/case.<m>"
        p = wp.mkdir(tmp, n=n, m=m)
        h.check(os.path.isdir(p) and p == os.path.join(tmp, f"job_{n}", f"case.{m}"), "the directory is made")
        h.check(wp.get_matching_paths_dict_values(tmp) == {p: {"n": n, "m": m}}, "the directory is found")
        h.check(wp.mkdir(tmp, m=m, n=n) == p, "an existing directory is kept")
        plain = WildcardPath("job.dir")
        q = plain.mkdir(tmp)
        h.check(plain.get_matching_paths(tmp) == [q] and plain.fill() == "job.dir", "a path without wildcards")


def cases(tier):
    most = 25 if tier == "thorough" else 11
    cs = []
    for k, (_, names, _) in PATTERNS.items():
        n = most if len(names) == 1 else (11 if tier == "thorough" and len(names) == 2 else 3)
        cs.append(Case("search-" + k, search(k, 2, True), "values 0..2, one near miss of each kind"))
        cs.append(Case("values-" + k, search(k, n, False), f"values 0..{n}"))
    cs += [Case("inconsistent", inconsistent, "values 0..3"), Case("rejected", rejected, "all patterns"),
           Case("made", made, "values 0..11 and 0..2")]
    return cs
