"""Run the harness cases of one property, decide, replay, write evidence."""
from __future__ import annotations

import importlib
import json
import os
import pickle
import random
import select
import selectors
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = {
    "NUMBA_DISABLE_JIT": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYVISTA_OFF_SCREEN": "true",
    "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}
LIMIT = {"quick": 780.0, "thorough": 10000.0}


class Replayer:
    """A process in which inputs are run on the unmodified code (started on first use)."""

    def __init__(self, prop):
        self.prop, self.p, self.n = prop, None, 0

    def run(self, item, timeout=90):
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ)
            env.update(ENV)
            self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "replay.py"), "--serve",
                                       self.prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, env=env, cwd=HERE)
            self.wait(240)  # imports
        self.n += 1
        self.p.stdin.write((json.dumps(item) + "\n").encode())
        self.p.stdin.flush()
        out = self.wait(timeout)
        if out is None:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {"outcome": "timeout", "msg": f"no result after {timeout} s"}
        return out

    def wait(self, timeout):
        end = time.time() + timeout
        buf = b""
        fd = self.p.stdout.fileno()
        while True:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            ch = os.read(fd, 1 << 16)
            if not ch:
                return {"outcome": "error", "msg": "replay process ended"}
            buf += ch
            for line in buf.split(b"\n")[:-1]:
                if line.startswith(b"RESULT "):
                    return json.loads(line[7:])

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()


def run_case(prop, case, tier):
    """In a worker process: explore one case and return a picklable result."""
    from symex import core, ctx, load
    opts = dict(case.opts)
    budget = opts.pop("budget", 600 if tier == "quick" else 5000)
    path_s = opts.pop("path_s", 150 if tier == "quick" else 900)
    eng = core.Engine(deadline=time.time() + budget, **opts)
    h = ctx.SymCtx(eng)
    tr = load.Tracer()
    tr.start()
    errors = []
    rp = Replayer(prop)

    def vals(m):
        return {k: ctx.frac_to_json(x) for k, x in m.items()}

    def on_violation(msg, models):
        last = None
        for m in models:
            item = {"case": case.name, "tier": tier, "values": vals(m)}
            o = rp.run(item)
            last = dict(o, values=item["values"], solver_msg=msg)
            if o["outcome"] == "violated":
                return last
        return last

    eng.on_violation = on_violation

    def on_alarm(*_a):
        raise core.PathTimeout()

    signal.signal(signal.SIGALRM, on_alarm)

    def body():
        load.reset_stubs()
        signal.setitimer(signal.ITIMER_REAL, path_s)
        try:
            case.fn(h)
        except core.PathTimeout:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if eng.witness is not None:
                item = {"case": case.name, "tier": tier, "values": dict(eng.witness)}
                o = rp.run(item)
                if o["outcome"] in ("timeout", "violated"):
                    eng.confirmed = {"outcome": "violated", "values": item["values"],
                                     "msg": o["msg"] if o["outcome"] == "violated" else
                                     "does not return: " + o["msg"], "solver_msg": "path timeout"}
                    raise core.PathStop("violation")
            raise core.Undecided(f"path not finished in {path_s} s")
        except core.Unsupported as e:
            errors.append("unsupported: " + str(e) + _where(e))
            raise core.Undecided(f"unsupported operation: {e}")
        except RecursionError as e:
            errors.append("recursion")
            raise core.Undecided(f"recursion: {e}")
        except Exception as e:  # noqa: BLE001 - the code under test raised
            msg = f"unexpected {type(e).__name__}: {e}"[:300]
            errors.append(msg + " " + _where(e))
            r, m = eng.feasible(None, eng.assert_ms)
            if r == "unsat":
                raise core.PathAbort()
            if m is None:
                raise core.Undecided(msg)
            eng.report(msg, m)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    t0 = time.time()
    try:
        eng.explore(body)
    except core.PathTimeout:
        eng.incomplete = True
    tr.stop()
    # validate the encoding: path witnesses are run on the unmodified code
    valid, werr, inadm = 0, [], 0
    if eng.confirmed is None:
        for s in eng.samples:
            o = rp.run({"case": case.name, "tier": tier, "values": s})
            if o["outcome"] == "held":
                valid += 1
            elif o["outcome"] == "violated":
                if rounding_only(rp, case.name, tier, s):
                    werr.append(dict(o, outcome="rounding", values=s))
                    continue
                eng.confirmed = dict(o, values=s, solver_msg="path witness")
                break
            elif o["outcome"] == "inadmissible":
                inadm += 1
            else:
                werr.append(o)
    rp.close()
    return {
        "case": case.name, "stats": eng.stats.asdict(), "wall": time.time() - t0,
        "confirmed": eng.confirmed, "spurious": eng.spurious[:5], "n_spurious": len(eng.spurious),
        "undecided": eng.undecided_msgs[:10], "incomplete": eng.incomplete,
        "functions": sorted(tr.seen), "reached": sorted(eng.all_reached),
        "samples": eng.samples[:3], "errors": errors[:5], "validated": valid,
        "witness_errors": werr, "inadmissible": inadm, "replays": rp.n,
    }


def rounding_only(rp, name, tier, values):
    """Whether a failing path witness is a rare effect of rounding.

    The solver has shown the assertion for the exact values of the witness, and the code fails for
    them in double precision. The failure is reported unless two thirds of the admissible values
    around the witness pass.
    """
    rnd = random.Random(1)
    held = failed = 0
    for i in range(64):
        near = {}
        for k, v in values.items():
            if isinstance(v, float) and v != int(v):
                scale = 10.0 ** -(4 + i % 6)
                v = v * (1 + scale * rnd.uniform(-1, 1))
            near[k] = v
        if near == values:
            return False
        o = rp.run({"case": name, "tier": tier, "values": near})["outcome"]
        held += o == "held"
        failed += o == "violated"
        if held + failed >= 24:
            break
    return held >= 4 and failed * 3 < held + failed


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f"{os.path.relpath(f.filename, '/')}:{f.lineno}" for f in tb][-6:]
    return " @ " + " > ".join(fr)


def spawn(prop, case, tier):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                res = run_case(prop, case, tier)
            except BaseException as e:  # noqa: BLE001
                res = {"case": case.name, "crash": f"{type(e).__name__}: {e}"[:500],
                       "trace": traceback.format_exc()[-3000:]}
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(res))
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def replay(prop, items, timeout=300):
    """Run (case, values) items on the unmodified code; returns a list of outcomes."""
    env = dict(os.environ)
    env.update(ENV)
    p = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), "--batch", prop],
                       input=json.dumps(items).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=HERE)
    out = []
    for line in p.stdout.decode().splitlines():
        if line.startswith("RESULT "):
            out.append(json.loads(line[7:]))
    while len(out) < len(items):
        out.append({"outcome": "error", "msg": p.stderr.decode()[-500:]})
    return out


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == prop]


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    from symex import load
    load.install()
    mod = importlib.import_module(f"props.{prop.lower()}")
    cases = mod.cases(tier)
    only = os.environ.get("VERIF_CASE")
    if only:
        cases = [c for c in cases if only in c.name]
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
    limit = t0 + LIMIT[tier]
    verbose = bool(os.environ.get("VERIF_VERBOSE"))
    pending = list(cases)
    running: dict = {}
    results = []
    confirmed = None
    spurious = []
    replays = 0
    sel = selectors.DefaultSelector()
    bufs: dict = {}
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    known = load_known(prop)

    def finish(pid, case, fd, res):
        nonlocal confirmed, replays
        results.append(res)
        if verbose:
            st = res.get("stats", {})
            print(f"  [{time.time()-t0:6.1f}s] {case.name}: wall={res.get('wall', 0):.1f} "
                  f"paths={st.get('paths')} asserts={st.get('asserts')} q={st.get('queries')} "
                  f"unk={st.get('q_unknown')} undec={st.get('undecided')} real={st.get('realised')} "
                  f"conf={bool(res.get('confirmed'))} spur={res.get('n_spurious')} val={res.get('validated')} inadm={res.get('inadmissible')} inc={res.get('incomplete')} "
                  f"{res.get('crash', '')} {res.get('errors', '')} {res.get('undecided', '')}",
                  flush=True)
            if res.get("trace"):
                print(res["trace"])
        replays += res.get("replays", 0)
        hit = res.get("confirmed")
        if hit and confirmed is None:
            path = os.path.join(rdir, f"{prop}-{safe(case.name)}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "case": case.name, "tier": tier,
                           "values": hit["values"], "expected": hit["msg"],
                           "solver_msg": hit.get("solver_msg")}, f, indent=1)
            confirmed = (path, case.name, hit["msg"])
        for sp in res.get("spurious", []):
            spurious.append({"case": case.name, **sp})

    while (pending or running) and confirmed is None:
        while pending and len(running) < jobs:
            c = pending.pop(0)
            pid, fd = spawn(prop, c, tier)
            running[fd] = (pid, c)
            bufs[fd] = b""
            sel.register(fd, selectors.EVENT_READ)
        left = limit - time.time()
        if left <= 0:
            break
        for key, _ in sel.select(min(left, 5)):
            fd = key.fd
            data = os.read(fd, 1 << 20)
            if data:
                bufs[fd] += data
                continue
            sel.unregister(fd)
            os.close(fd)
            pid, c = running.pop(fd)
            os.waitpid(pid, 0)
            try:
                res = pickle.loads(bufs.pop(fd))
            except Exception:  # noqa: BLE001
                res = {"case": c.name, "crash": "worker died"}
            finish(pid, c, fd, res)
            if confirmed is not None:
                break
    timed_out = []
    for fd, (pid, c) in running.items():
        timed_out.append(c.name)
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    timed_out += [c.name for c in pending]

    validated = sum(r.get("validated", 0) for r in results)
    mismatches = [{"case": r["case"], **w} for r in results for w in r.get("witness_errors", [])]

    known_lines = []
    if confirmed is None and known:
        outs = replay(prop, [{"case": k["case"], "tier": tier, "values": k["values"]}
                             for k in known])
        for k, o in zip(known, outs):
            if o["outcome"] == "violated":
                known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")

    tot: dict = {}
    funcs: set = set()
    for r in results:
        for k, v in r.get("stats", {}).items():
            tot[k] = tot.get(k, 0) + v
        funcs |= set(r.get("functions", []))
    incomplete = [r["case"] for r in results if r.get("incomplete")] + timed_out
    crashed = [(r["case"], r["crash"]) for r in results if r.get("crash")]
    vacuous = [r["case"] for r in results
               if not r.get("crash") and not r.get("confirmed")
               and (not r.get("stats", {}).get("asserts")
                    or not r.get("stats", {}).get("paths_witnessed") or not r.get("validated"))]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("branches", 0),
            "traces_validated_against_impl": validated,
            "samples": [{"case": r["case"], "inputs": s} for r in results
                        for s in r.get("samples", [])[:1]][:20],
            "cases": [{"name": c.name, "bounds": c.bounds,
                       **_caserow(results, c.name)} for c in cases],
            "assertions_posed": tot.get("asserts", 0),
            "assertions_decided_without_solver": tot.get("asserts_trivial", 0),
            "solver_queries": tot.get("queries", 0), "solver_sat": tot.get("q_sat", 0),
            "solver_unsat": tot.get("q_unsat", 0), "solver_unknown": tot.get("q_unknown", 0),
            "solver_s": round(tot.get("solver_s", 0), 2),
            "undecided": tot.get("undecided", 0), "values_realised": tot.get("realised", 0),
            "incomplete_cases": incomplete, "crashed_cases": crashed,
            "vacuous_cases": vacuous, "unreproduced_counterexamples": spurious[:10],
            "replays_run": replays, "witness_errors": mismatches[:5],
            "functions_encoded": sorted(funcs),
            "explanation": "states = symbolic paths of the real source (each covers all inputs "
                           "that follow it), transitions = symbolic branch decisions; each "
                           "assertion on each path is decided by the SMT solver for all inputs",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if confirmed else 0,
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))

    for k in known_lines:
        print(k)
    c = ev["coverage"]
    print(f"{prop} {tier}: cases={len(cases)} paths={c['states']} assertions={c['assertions_posed']}"
          f" queries={c['solver_queries']} solver_s={c['solver_s']} undecided={c['undecided']}"
          f" validated={validated} wall={ev['wall_s']}")
    if confirmed:
        print(f"{confirmed[1]}: {confirmed[2]}")
        print(f"VIOLATION property={prop} replay={confirmed[0]}")
        return 1
    notes = []
    if c["undecided"]:
        notes.append(f"{c['undecided']} paths undecided")
    if incomplete:
        notes.append(f"incomplete cases {incomplete}")
    if spurious:
        notes.append(f"{len(spurious)} solver counterexamples did not reproduce: "
                     + "; ".join(f"{s['case']}: {s['msg'][:120]} -> {s['replay']}" for s in spurious[:3]))
    if mismatches:
        notes.append(f"witness replay errors: {mismatches[:2]}")
    if tot.get("realised"):
        notes.append(f"{tot['realised']} values fixed to a witness")
    for n in notes:
        print("INCONCLUSIVE:", n)
    done = [r for r in results if not r.get("crash")]
    if crashed:
        print("CRASHED:", crashed)
    if not done or (len(crashed) * 2 > len(cases)):
        return 3
    if len(vacuous) == len(done):
        print("VACUOUS:", vacuous)
        return 3
    if vacuous:
        print("VACUOUS:", vacuous)
    return 0


COMMON = [
    "floating point is modelled by exact real arithmetic; float literals denote their decimal value"
    " and irrational constants their nearest double; counterexamples and path witnesses are run on"
    " the unmodified code in double precision",
    "numba is disabled (NUMBA_DISABLE_JIT=1): the interpreted source is taken to mean what the"
    " compiled one means",
    "numpy functions are modelled by their documented meaning (symex/snp.py); np.save/np.load and"
    " json return what was written; np.random returns any value of its range",
]


def _caserow(results, name):
    for r in results:
        if r["case"] == name:
            st = r.get("stats", {})
            return {"paths": st.get("paths"), "assertions": st.get("asserts"),
                    "queries": st.get("queries"), "wall_s": round(r.get("wall", 0), 1),
                    "undecided": st.get("undecided"), "crash": r.get("crash")}
    return {"paths": None}


def safe(s):
    return "".join(ch if ch.isalnum() or ch in "-_" else "_" for ch in s)
