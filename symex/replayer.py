"""Runs a harness on the real, unmodified code with recorded inputs.

As a server: one JSON request per line on stdin, one JSON answer per line on stdout.
As a command: replayer.py FILE   (exit 1 when the violation reproduces)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.setrecursionlimit(3000)
sys.dont_write_bytecode = True


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return [[norm(k), norm(v)] for k, v in x.items()]
    if isinstance(x, float):
        return "float"
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return str(type(x))


def run(req):
    from symex.ctx import ConcreteCtx
    mod, fn = req["harness"].split(":")
    m = importlib.import_module(mod)
    ctx = ConcreteCtx(req["inputs"])
    res = {"failed": [], "skipped": False}
    try:
        getattr(m, fn)(ctx, **req.get("params", {}))
    except ConcreteCtx.Skip:
        res["skipped"] = True
    except Exception as e:
        import traceback
        ctx.failed.append("uncaught:" + type(e).__name__)
        res["trace"] = traceback.format_exc()[-1500:]
    res["failed"] = ctx.failed
    res["known"] = ctx.known_ids
    res["detail"] = getattr(ctx, "detail", None)
    res["observed"] = norm(ctx.observed)
    return res


def main():
    if len(sys.argv) > 1:
        req = json.load(open(sys.argv[1]))
        res = run(req)
        print(json.dumps(res, indent=1, ensure_ascii=True))
        sys.exit(1 if res["failed"] else 0)
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    for line in sys.stdin:
        res = run(json.loads(line))
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
