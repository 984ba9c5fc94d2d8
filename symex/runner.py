"""Explores the harnesses of one property in parallel, replays, writes evidence."""
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable


class Replay(object):
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        self.p = subprocess.Popen([PY, "-B", os.path.join(HERE, "symex", "replayer.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=HERE)

    def ask(self, req, timeout=20):
        if self.p is None or self.p.poll() is not None:
            self.start()
            timeout += 20
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()
        buf = b""
        end = time.time() + timeout
        while not buf.endswith(b"\n"):
            left = end - time.time()
            if left <= 0:
                self.p.kill()
                self.p.wait()
                self.p = None
                return {"failed": ["hang"], "hang": True, "observed": [], "skipped": False}
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                continue
            chunk = os.read(self.p.stdout.fileno(), 1 << 16)
            if not chunk:
                self.p = None
                return {"failed": [], "died": True, "observed": [], "skipped": False}
            buf += chunk
        return json.loads(buf.decode())

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()


PATH_LIMIT = 40.0
# development: where to write which assertions the paths of each choice reach
VACUITY = os.environ.get("VERIF_VACUITY")


class Worker(object):
    def __init__(self, cases, seed, validate_share):
        from . import core
        self.core = core
        self.eng = core.ENGINE
        self.cases = cases
        self.replay = Replay()
        self.replay_s = 0.0
        self.t0 = time.time()
        self.share = validate_share
        self.seed = seed
        self.profiled = {}
        self.funcs = set()

    def run_path(self, ci, prefix):
        """-> dict(status=..., ...)"""
        from .ctx import SymCtx, evaluate
        from .replayer import norm
        core = self.core
        eng = self.eng
        case = self.cases[ci]
        eng.reset(prefix)
        ctx = SymCtx(eng)
        res = {"status": "ok"}

        def on_alarm(sig, frame):
            raise core.PathTimeout()
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT)
        prof = self.profiled.get(ci, 0) < 2
        if prof:
            self.profiled[ci] = self.profiled.get(ci, 0) + 1
            sys.setprofile(self._profile)
        try:
            try:
                case["fn"](ctx, **case["params"])
            finally:
                sys.setprofile(None)
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.PathAbort:
            res["status"] = "abort"
        except core.PathTimeout:
            res["status"] = "timeout"
        except core.EngineError as e:
            res["status"] = "engine"
            res["err"] = str(e)
        except RecursionError as e:
            res["status"] = "engine"
            res["err"] = "recursion"
        except Exception as e:
            eng.props.append(("uncaught:" + type(e).__name__, False))
            res["exc"] = traceback.format_exc()[-3000:]
        eng.stats["branches"] += eng.nbranch
        res["pending"] = eng.pending
        if VACUITY:
            res["choices"] = [(str(a), b) for a, b in eng.choice_log[:40]]
            res["labels"] = sorted({str(p[0]) for p in eng.props} | set(map(str, eng.reached)))
        if res["status"] in ("abort", "engine"):
            return res
        if res["status"] == "timeout":
            model = eng.witness()
            if model is not None:
                req = self.request(case, ctx, model)
                r = self.replay.ask(req, 25)
                if r.get("hang"):
                    res["violation"] = dict(label="hang", req=req, replay=r)
            return res
        eng.stats["paths"] += 1
        try:
            out = eng.check_path()
        except core.EngineError as e:
            res["status"] = "engine"
            res["err"] = str(e)
            return res
        res["reached"] = eng.reached
        res["incomplete"] = list(eng.incomplete)
        if out is None:
            res["trivial"] = not eng.props
            if self._sample():
                model = eng.witness()
                if model is None:
                    res["status"] = "engine"
                    res["err"] = "path condition %s: %r" % (eng.answer, [d.key() for d in eng.decisions])
                    return res
                req = self.request(case, ctx, model)
                t = time.time()
                r = self.replay.ask(req)
                self.replay_s += time.time() - t
                obs = self.unhash(json.loads(json.dumps(norm(evaluate(ctx.observed, model)))),
                                  model)
                if r["failed"] and not ctx.kid:
                    # the real code fails where the encoding says it cannot
                    res["violation"] = dict(label=r["failed"][0], req=req, replay=r,
                                            encoding_missed=True)
                elif r.get("observed") != obs and not r["skipped"]:
                    res["status"] = "mismatch"
                    res["err"] = json.dumps([req, obs, r.get("observed")])[:3000]
                else:
                    res["validated"] = req["inputs"]
            return res
        label, model = out
        if label == "unknown":
            res["status"] = "unknown"
            return res
        req = self.request(case, ctx, model)
        t = time.time()
        r = self.replay.ask(req)
        self.replay_s += time.time() - t
        if r["failed"] and not r["skipped"]:
            lab = label if label in r["failed"] else r["failed"][0]
            if ctx.kid:
                res["known"] = dict(id=ctx.kid, label=lab, req=req, replay=r)
            else:
                res["violation"] = dict(label=lab, req=req, replay=r)
        else:
            res["status"] = "spurious"
            res["err"] = json.dumps([label, req, r, res.get("exc")])[:4000]
        return res

    def _profile(self, frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(REPO):
                self.funcs.add("%s:%s" % (os.path.relpath(fn, REPO), frame.f_code.co_name))

    def unhash(self, obs, model):
        """Replace ideal-hash tokens by the digests they stand for."""
        from .ctx import evaluate
        subs = {}
        for fn, content, tok in self.eng.tokens:
            real = fn(evaluate(content, model).encode("utf-8")).hexdigest()
            if real != tok:
                subs[tok] = real

        def go(x):
            if isinstance(x, str):
                if len(x) >= 32:
                    for a, b in subs.items():
                        x = x.replace(a, b)
                return x
            if isinstance(x, list):
                return [go(y) for y in x]
            return x
        return go(obs) if subs else obs

    def _sample(self):
        n = self.eng.stats["paths"]
        if n <= 3:
            return True
        if n % 7 == self.seed % 7:
            return self.replay_s < self.share * (time.time() - self.t0)
        return False

    def request(self, case, ctx, model):
        from .ctx import evaluate
        return dict(harness=case["harness"], params=case["params"],
                    inputs={n: evaluate(v, model) for n, v in ctx.inputs})

    def slice(self, jobs, seconds):
        """Explore depth-first from the given (case, prefix) jobs for about `seconds`."""
        stack = list(jobs)
        end = time.time() + seconds
        agg = dict(paths=[], events=[])
        while stack:
            ci, prefix = stack.pop()
            r = self.run_path(ci, prefix)
            for p in r.pop("pending"):
                stack.append((ci, p))
            r["case"] = ci
            agg["paths"].append(r)
            if "violation" in r or time.time() > end:
                break
        return stack, agg


def send(fd, obj):
    data = pickle.dumps(obj, 2)
    data = len(data).to_bytes(8, "little") + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def recv(fd):
    def rd(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return out
    n = int.from_bytes(rd(8), "little")
    return pickle.loads(rd(n))


def worker_main(rfd, wfd, cases, seed, share):
    w = Worker(cases, seed, share)
    eng = w.eng
    eng.z3.fresh()
    nq = 0
    try:
        while True:
            msg = recv(rfd)
            if msg is None:
                break
            jobs, seconds = msg
            for k in eng.stats:
                eng.stats[k] = 0
            eng.z3.queries = 0
            eng.z3.seconds = 0.0
            eng.notes = {}
            stack, agg = w.slice(jobs, seconds)
            agg["stats"] = dict(eng.stats)
            agg["notes"] = dict(eng.notes)
            agg["z3q"] = eng.z3.queries
            agg["z3s"] = eng.z3.seconds
            agg["funcs"] = w.funcs
            w.funcs = set()
            nq += eng.z3.queries
            send(wfd, (stack, agg))
            if nq > 200000:
                nq = 0
                s = eng.z3.seconds
                eng.z3.fresh()
                eng.smt_cache = dict(eng.smt_cache) if len(eng.smt_cache) < 200000 else {}
    except EOFError:
        pass
    except BaseException:
        traceback.print_exc()
    finally:
        w.replay.stop()
        os._exit(0)


def compact(r):
    """What the parent needs of a path result."""
    return r


class Run(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed

    def load(self):
        from . import core, rewrite, rt
        sys.path.insert(0, HERE)
        sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        sys.setrecursionlimit(6000)
        import threading
        core.init()
        rewrite.install()
        from . import models
        models.install()
        reg = importlib.import_module("harness.registry")
        self.spec = reg.CHECKS[self.prop]
        self.cases = []
        only = os.environ.get("VERIF_ONLY")
        for c in self.spec["cases"]:
            if only and only not in c["name"]:
                continue
            if self.tier == "quick" and c.get("thorough_only"):
                continue
            params = dict(c.get("params", {}))
            if self.tier == "thorough":
                params.update(c.get("thorough", {}))
            mod, fn = c["harness"].split(":")
            f = getattr(importlib.import_module(mod), fn)
            self.cases.append(dict(name=c["name"], harness=c["harness"], params=params, fn=f,
                                   bound=c.get("bound", "")))

    def explore(self):
        nproc = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
        default = self.spec.get("budget", 240) if self.tier == "quick" else 3600
        budget = float(os.environ.get("VERIF_BUDGET", default))
        share = 0.15
        if os.environ.get("VERIF_INPROC"):
            return self._inproc(budget)
        chans = []
        for i in range(nproc):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(w1)
                os.close(r2)
                for (_, a, b) in chans:
                    os.close(a)
                    os.close(b)
                worker_main(r1, w2, self.cases, self.seed + i, share)
            os.close(r1)
            os.close(w2)
            chans.append((pid, w1, r2))
        self.t0 = time.time()
        queue = [(ci, []) for ci in range(len(self.cases))][::-1]
        idle = list(range(nproc))
        busy = {}
        self.stop = False
        self.exhausted = True
        self.init_agg()
        dead = 0
        while True:
            while idle and queue and not self.stop:
                i = idle.pop()
                # hand out a share of the queue
                n = max(1, min(len(queue) // (2 * nproc), 64))
                jobs = [queue.pop() for _ in range(n)]
                secs = 0.3 if time.time() - self.t0 < 5 or len(queue) < nproc else 1.5
                send(chans[i][1], (jobs, secs))
                busy[i] = time.time()
            if not busy:
                break
            fds = {chans[i][2]: i for i in busy}
            rl, _, _ = select.select(list(fds), [], [], 5)
            for fd in rl:
                i = fds[fd]
                try:
                    stack, agg = recv(fd)
                except EOFError:
                    dead += 1
                    del busy[i]
                    self.errors.append("worker died")
                    continue
                del busy[i]
                idle.append(i)
                queue.extend(stack)
                self.merge(agg)
            if self.violations and not os.environ.get("VERIF_ALL"):
                self.stop = True
            if time.time() - self.t0 > budget:
                self.stop = True
            if self.stop:
                if queue:
                    self.exhausted = False
                if self.violations:
                    break
                # let the running slices finish, bounded
                if time.time() - self.t0 > budget + PATH_LIMIT + 60:
                    break
        if queue or busy:
            self.exhausted = False
        self.left = len(queue)
        for pid, w, r in chans:
            os.close(w)
        end = time.time() + 3
        for pid, w, r in chans:
            while True:
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p or time.time() > end:
                    break
                time.sleep(0.02)
            if not p:
                kill_tree(pid)
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass

    def _inproc(self, budget):
        self.t0 = time.time()
        self.init_agg()
        self.exhausted = True
        w = Worker(self.cases, self.seed, 0.15)
        queue = [(ci, []) for ci in range(len(self.cases))][::-1]
        while queue:
            queue, agg = w.slice(queue, 1.0)
            agg["stats"] = dict(w.eng.stats)
            for k in w.eng.stats:
                w.eng.stats[k] = 0
            agg["notes"] = {}
            agg["z3q"] = agg["z3s"] = 0
            agg["funcs"] = w.funcs
            self.merge(agg)
            if time.time() - self.t0 > budget or (self.violations and
                                                  not os.environ.get("VERIF_ALL")):
                self.exhausted = not queue
                break
        self.left = len(queue)
        w.replay.stop()

    def init_agg(self):
        self.stats = {}
        self.notes = {}
        self.z3q = 0
        self.z3s = 0.0
        self.funcs = set()
        self.violations = []
        self.known = {}
        self.errors = []
        self.case_paths = {}
        self.reached = {}
        self.incomplete = 0
        self.validated = 0
        self.samples = []
        self.nstatus = {}
        self.nontrivial = 0
        self.vacuity = {}

    def merge(self, agg):
        for k, v in agg["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in agg["notes"].items():
            self.notes[k] = self.notes.get(k, 0) + v
        self.z3q += agg["z3q"]
        self.z3s += agg["z3s"]
        self.funcs |= agg["funcs"]
        for r in agg["paths"]:
            st = r["status"]
            self.nstatus[st] = self.nstatus.get(st, 0) + 1
            name = self.cases[r["case"]]["name"]
            if st == "ok":
                self.case_paths[name] = self.case_paths.get(name, 0) + 1
                if not r.get("trivial"):
                    self.nontrivial += 1
                for l in r.get("reached", ()):
                    key = name + ": " + l
                    self.reached[key] = self.reached.get(key, 0) + 1
            if VACUITY:
                for a, b in set(r["choices"]):
                    d = self.vacuity.setdefault(name, {}).setdefault(a, {}).setdefault(b, {})
                    d[st] = d.get(st, 0) + 1
                    for l in r["labels"] if st == "ok" else ():
                        d["+" + l] = d.get("+" + l, 0) + 1
            if r.get("incomplete"):
                self.incomplete += 1
            if "validated" in r:
                self.validated += 1
                if len(self.samples) < 12 and self.case_paths.get(name, 0) % 5 == 1 or \
                        len(self.samples) < 2:
                    self.samples.append(dict(case=name, inputs=r["validated"]))
            if "violation" in r:
                v = r["violation"]
                v["case"] = name
                self.violations.append(v)
            if "known" in r:
                kf = r["known"]
                kf["case"] = name
                self.known.setdefault(kf["id"], []).append(kf)
            if "err" in r:
                self.errors.append("%s: %s: %s" % (name, st, r["err"]))


def kill_tree(pid):
    try:
        kids = open("/proc/%d/task/%d/children" % (pid, pid)).read().split()
    except OSError:
        kids = []
    for k in kids:
        kill_tree(int(k))
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


def describe(params):
    """A case's bounds in words, made from its parameters."""
    out = []

    def dom(d):
        if d is None:
            return "any character"
        if isinstance(d, (tuple, list)) and d and d[0] == "not":
            return "any character but %r" % d[1]
        return "characters of %r" % (d,)
    for k, v in sorted(params.items()):
        if k == "holes":
            for h, x in sorted(v.items()):
                if isinstance(x, (tuple, list)):
                    out.append("<%s>: %d to %d characters, %s" % (
                        h, x[0], x[1], dom(x[2] if len(x) > 2 else None)))
                else:
                    out.append("<%s>: %r" % (h, x))
        elif isinstance(v, (list, tuple)) and k in ("docs", "specs", "shapes", "skel", "texts"):
            out.append("%d %s" % (len(v), dict(docs="document skeletons", specs="document shapes",
                                               skel="document skeletons").get(k, k)))
        elif k in ("dom", "keydom", "valdom"):
            out.append("%s: %s" % (k, dom(v)))
        else:
            out.append("%s = %r" % (k, v))
    return "; ".join(out) or "as fixed in the harness"


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(prop, tier):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = Run(prop, tier, seed)
    run.load()
    load_s = time.time() - t_start
    run.explore()
    wall = time.time() - t_start
    listed = {f["id"]: f for f in load_known()
              if f["property"] == prop and f["status"] == "finding"}
    violations = list(run.violations)
    known_seen = []
    for kid, items in run.known.items():
        f = listed.get(kid)
        for it in items:
            if f is not None and it["label"] in f["labels"]:
                if kid not in known_seen:
                    known_seen.append(kid)
            else:
                violations.append(it)
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    vc = run.stats.get("vc_queries", 0)
    strict_errors = [e for e in run.errors]
    cov = dict(
        states=run.stats.get("paths", 0),
        transitions=run.stats.get("branches", 0),
        traces_validated_against_impl=run.validated,
        samples=run.samples[:12] or [dict(case=c["name"], inputs="(none sampled)")
                                     for c in run.cases[:1]],
        exhaustive=bool(run.exhausted and not run.incomplete and not strict_errors),
        meaning="states = symbolic paths completed, each standing for every input that follows "
                "it; transitions = symbolic branch decisions taken; "
                "traces_validated_against_impl = paths whose solver witness was run on the "
                "unmodified code and gave the same observations",
        cases=[dict(name=c["name"], params=c["params"], bound=c["bound"] or describe(c["params"]),
                    paths=run.case_paths.get(c["name"], 0)) for c in run.cases],
        paths_by_status=run.nstatus,
        nontrivial_paths=run.nontrivial,
        obligations_checked=run.stats.get("props", 0),
        forks=run.stats.get("forks", 0),
        solver=dict(name="z3", version=None, queries=run.z3q, path_condition_queries=vc,
                    feasibility_queries=run.stats.get("feas_queries", 0),
                    pruned_branches_rechecked=run.stats.get("implied", 0),
                    seconds=round(run.z3s, 3)),
        functions_encoded=sorted(run.funcs),
        reachability=dict(sorted(run.reached.items())[:200]),
        under_approximated_paths=run.incomplete,
        under_approximations=run.notes,
        unexplored_prefixes=run.left,
        engine_errors=strict_errors[:20],
        known_findings=known_seen,
    )
    from . import core
    cov["solver"]["version"] = core.ENGINE.z3.version
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=run.spec.get("assumptions", []) + BASE_ASSUMPTIONS,
              wall_s=round(wall, 2), violations=len(violations))
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s %s: %d paths (%d aborted), %d branches, %d z3 queries (%.1fs), %d validated, "
          "%s, load %.1fs, wall %.1fs" % (
              prop, tier, run.stats.get("paths", 0), run.nstatus.get("abort", 0),
              run.stats.get("branches", 0), run.z3q, run.z3s, run.validated,
              "exhaustive within bounds" if cov["exhaustive"] else
              "NOT exhaustive (left %d, approximated %d, errors %d)" % (
                  run.left, run.incomplete, len(strict_errors)), load_s, wall))
    for c in cov["cases"]:
        print("   %-40s %7d paths" % (c["name"], c["paths"]))
    for e in strict_errors[:int(os.environ.get("VERIF_SHOW", "3"))]:
        print("   note: %s" % e[:int(os.environ.get("VERIF_ERRLEN", "1500"))], file=sys.stderr)
    for n, k in sorted(run.notes.items(), key=lambda x: -x[1])[:8]:
        print("   note: %s x%d" % (n, k), file=sys.stderr)
    if VACUITY:
        with open(VACUITY, "w") as f:
            json.dump(run.vacuity, f, indent=1)
    for kid in known_seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, listed[kid]["what"]))
    if violations:
        seen = set()
        for v in violations:
            if (v["case"], v["label"]) in seen or len(seen) >= 12:
                continue
            seen.add((v["case"], v["label"]))
            data = dict(property=prop, label=v["label"], **v["req"])
            data["result"] = v["replay"]
            h = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(evd, "replay-%s-%s.json" % (prop, h))
            with open(path, "w") as f:
                json.dump(data, f, indent=1)
            print("   case %s label %s inputs %s detail %s" % (
                v["case"], v["label"], json.dumps(v["req"]["inputs"]),
                str(v["replay"].get("detail") or v["replay"].get("trace"))[-1200:]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if run.stats.get("paths", 0) == 0 or run.nontrivial == 0:
        print("no path reached an assertion", file=sys.stderr)
        return 2
    return 0


BASE_ASSUMPTIONS = [
    "input characters range over all of Unicode except surrogates and U+001C-1F, U+180E (which "
    "PyPy strips unlike the language definition) unless a case narrows them; "
    "lengths and document shapes are bounded as each case states",
    "md5 is modelled as an ideal hash: equal contents give equal tokens, different contents "
    "give different tokens, and a token does not occur in the document",
    "the wording of error messages is not modelled exactly (repr of symbolic text)",
    "the regular expression matcher, string methods and containers of the interpreter are "
    "modelled in symex/ (validated by replaying solver witnesses on the unmodified code)",
]
