"""Replay solver inputs on the unmodified code.

  python replay.py FILE.json          replay one recorded counterexample (exit 1 if it reproduces)
  python replay.py --batch PROPERTY   read a list of {case, tier, values} on stdin
"""
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "NUMBA_DISABLE_JIT": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYVISTA_OFF_SCREEN": "true",
    "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0",
}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import warnings  # noqa: E402

warnings.filterwarnings("ignore")


def run(prop, item):
    import importlib
    from symex import ctx
    mod = importlib.import_module(f"props.{prop.lower()}")
    case = None
    for c in mod.cases(item.get("tier", "quick")) + list(getattr(mod, "known_cases", list)()):
        if c.name == item["case"]:
            case = c
    if case is None:
        return {"outcome": "error", "msg": f"no case {item['case']}"}
    h = ctx.ConCtx(item["values"])
    try:
        case.fn(h)
    except ctx.AssumptionFailed as e:
        return {"outcome": "inadmissible", "msg": str(e)}
    except ctx.Violated as e:
        return {"outcome": "violated", "msg": str(e)[:400]}
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "building3d")
        inside = any(f.filename.startswith(root) for f in tb)
        return {"outcome": "violated" if inside else "error",
                "msg": f"unexpected {type(e).__name__}: {e}"[:400],
                "at": f"{tb[-1].filename}:{tb[-1].lineno}"}
    return {"outcome": "held", "msg": f"{h.n_checks} checks"}


def main():
    if sys.argv[1] == "--batch":
        prop = sys.argv[2]
        for item in json.load(sys.stdin):
            r = run(prop, item)
            print("RESULT " + json.dumps(r), flush=True)
        return 0
    if sys.argv[1] == "--serve":
        import importlib
        importlib.import_module(f"props.{sys.argv[2].lower()}").cases("quick")
        print('RESULT {"outcome": "ready"}', flush=True)
        for line in sys.stdin:
            r = run(sys.argv[2], json.loads(line))
            print("\nRESULT " + json.dumps(r), flush=True)
        return 0
    with open(sys.argv[1]) as f:
        d = json.load(f)
    r = run(d["property"], d)
    print(r)
    return 1 if r["outcome"] == "violated" else 0


if __name__ == "__main__":
    sys.exit(main())
