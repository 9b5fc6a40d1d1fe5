"""Facet runner shared by all checks.

A check module defines FACETS, a list of Facet objects.  A facet is a
Hypothesis strategy yielding *plain literals* (numbers, strings, bytes, None,
tuples, lists, dicts) plus an oracle called with each of them.  The oracle
raises Violation when the observable behaviour of coral contradicts the
property.  Because a case is a literal, a (shrunk) failure is saved as its
repr and replayed without Hypothesis.
"""
import ast
import datetime
import hashlib
import json
import math
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CORAL_REPO", "/repo")
PKG = os.path.join(REPO, "coral") + os.sep

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Violation(Exception):
    "The property does not hold for this case."


class Budget(Exception):
    "Too many jumps inside coral for one case: it does not terminate."


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def need(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def num(x, what="result"):
    "A finite real number, or a violation."
    if isinstance(x, bool) or not isinstance(x, (int, float)) or not math.isfinite(x):
        fail("{} is not a finite number: {!r}", what, x)
    return x


def pt(p, what="result"):
    "A pair of finite numbers, or a violation."
    try:
        x, y = p
    except (TypeError, ValueError):
        fail("{} is not a pair: {!r}", what, p)
    return num(x, what), num(y, what)


def close(a, b, tol, what="result"):
    num(a, what)
    if not abs(a - b) <= tol:
        fail("{}: got {!r}, expected {!r} within {!r}", what, a, b, tol)


def raises(exc, func, *args, what=None, **kw):
    "func must raise exc (or a subclass)."
    try:
        r = func(*args, **kw)
    except exc as e:
        if isinstance(e, (Violation, Budget)):
            raise
        return e
    fail("{}: expected {}, got {!r}", what or getattr(func, "__name__", func),
         getattr(exc, "__name__", exc), r)


class Facet:
    """strategy: zero-argument function returning a strategy.
    check(case): returns False for a trivial case, a string to label it, or
    None for an unlabelled non-trivial one.
    quick/thorough: number of generated cases."""

    def __init__(self, name, strategy, check, rule, quick=1500, thorough=None, budget=3000000, weight=1):
        self.name, self.strategy, self.check, self.rule = name, strategy, check, rule
        self.quick = 2 * quick
        self.thorough = thorough or quick * 40
        self.budget = budget
        self.weight = weight


# -- scratch files -----------------------------------------------------------

class Scratch:
    "Scratch directory of the current process, below the one of the check."
    base = None

    @classmethod
    def dir(cls):
        if cls.base is None:
            cls.base = tempfile.mkdtemp(prefix="coral-verif-")
        return cls.base

    @classmethod
    def path(cls, name):
        return os.path.join(cls.dir(), name)

    @classmethod
    def fresh(cls):
        "An empty directory, replacing that of the previous case."
        d = os.path.join(cls.dir(), "case")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        return d


# -- termination budget -------------------------------------------------------

class Meter:
    """Counts jumps and branches taken inside coral (sys.monitoring), so that
    an endless loop is found deterministically, without a clock."""
    TOOL = 4
    count = 0
    limit = 0

    @classmethod
    def install(cls):
        mon = sys.monitoring
        mon.use_tool_id(cls.TOOL, "coral-verif")
        ev = mon.events

        def jump(code, off, dest):
            if not code.co_filename.startswith(PKG):
                return mon.DISABLE
            cls.count += 1
            if cls.limit and cls.count > cls.limit:
                raise Budget("more than {} jumps in one case".format(cls.limit))
        mon.register_callback(cls.TOOL, ev.JUMP, jump)
        mon.register_callback(cls.TOOL, ev.BRANCH, jump)
        mon.set_events(cls.TOOL, ev.JUMP | ev.BRANCH)

    @classmethod
    def start(cls, limit):
        cls.count, cls.limit = 0, limit

    @classmethod
    def stop(cls):
        cls.limit = 0


class Infra(Exception):
    "The machinery itself failed; nothing is said about the property."


INFRA = (Infra, KeyboardInterrupt)
MEMORY = 3 << 30    # bytes a worker may use; cases need a small fraction of it


def run_case(facet, case):
    """Run the oracle.  Returns (label, None) or (None, message)."""
    import hypothesis.errors as he
    Meter.start(facet.budget)
    try:
        r = facet.check(case)
        Meter.stop()
        return r, None
    except Violation as e:
        Meter.stop()
        return None, str(e)
    except Budget as e:
        Meter.stop()
        return None, "does not terminate: " + str(e)
    except INFRA:
        Meter.stop()
        raise
    except he.HypothesisException:
        Meter.stop()
        raise
    except (Exception, SystemExit) as e:
        Meter.stop()
        if isinstance(e, OSError) and e.errno in (12, 23, 24, 28):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(PKG)]
        if where:
            f = where[-1]
            return None, "raised {}: {} ({}:{})".format(type(e).__name__, e, os.path.basename(f.filename), f.lineno)
        f = tb[-1]
        # The oracle runs on every case of the unchanged tree without an
        # error; if it stumbles, the value it was given is malformed.
        return None, "result cannot be interpreted, {}: {} ({}:{})".format(
            type(e).__name__, e, os.path.basename(f.filename), f.lineno)


def digest(case):
    return hashlib.blake2b(repr(case).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def shard_worker(facet, seed, n):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 25
    st = {"evals": 0, "seen": set(), "samples": [], "labels": {}, "fail": None}
    strategy = facet.strategy()

    class Found(Exception):
        pass

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), print_blob=False,
              phases=(Phase.generate, Phase.shrink))
    @given(strategy)
    def go(case):
        if st["fail"] is None:
            st["evals"] += 1
        label, msg = run_case(facet, case)
        if msg is not None:
            st["fail"] = (repr(case), msg)
            raise Found(msg)
        if st["fail"] is None and label is not False:
            d = digest(case)
            if d not in st["seen"]:
                st["seen"].add(d)
                k = len(st["seen"])
                if k in (2, 20, 200, 2000):
                    st["samples"].append(repr(case)[:600])
            if label:
                st["labels"][label] = st["labels"].get(label, 0) + 1
    try:
        go()
    except Found:
        pass
    except hypothesis.errors.Flaky:
        # A failure that depends on earlier cases: keep what was seen.
        if st["fail"] is None:
            raise
    return st


class Job:
    def __init__(self, what, func, args, limit):
        self.what, self.limit = what, limit
        r, w = os.pipe()
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="coral-verif-")
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                Scratch.base = self.scratch
                os.chdir(self.scratch)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 0)
                os.dup2(null, 1)
                os.dup2(null, 2)
                Meter.install()
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                try:
                    out = ("ok", func(*args))
                except BaseException:
                    out = ("error", traceback.format_exc())
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(w)
        self.fd = r
        self.buf = b""

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass

    def finish(self):
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        shutil.rmtree(self.scratch, ignore_errors=True)


def run_jobs(todo, cores):
    "todo: list of (what, func, args, limit). Yields (what, result) as they end."
    import select
    todo = list(todo)
    live = {}
    try:
        while todo or live:
            while todo and len(live) < cores:
                j = Job(*todo.pop(0))
                live[j.fd] = j
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for fd in ready:
                chunk = os.read(fd, 1 << 20)
                j = live[fd]
                if chunk:
                    j.buf += chunk
                    continue
                del live[fd]
                j.finish()
                try:
                    yield j.what, pickle.loads(j.buf)
                except Exception:
                    yield j.what, ("error", "worker for {} died".format(j.what))
            now = time.time()
            for fd, j in list(live.items()):
                if now - j.t0 > j.limit:
                    j.kill()
                    del live[fd]
                    j.finish()
                    yield j.what, ("error", "{} exceeded {} s of wall time: inconclusive".format(j.what, j.limit))
    finally:
        for j in live.values():
            j.kill()
            j.finish()


def literal(text):
    "Inverse of repr for the literals used as cases."
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return eval(text, {"__builtins__": {}}, {"inf": math.inf, "nan": math.nan, "set": set, "frozenset": frozenset, "datetime": datetime})


def load_regress(pid):
    path = os.path.join(VERIF, "regress", pid.lower() + ".txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.rstrip("\n")
                if line and not line.startswith("#"):
                    name, case = line.split("\t", 1)
                    out.append((name, literal(case)))
    return out


def load_findings(pid):
    """known_findings.txt: lines
    finding: property=<id> facet=<facet> case=<repr> what=<text>"""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    rest = line.rstrip("\n").split(" facet=", 1)[1]
                    name, rest = rest.split(" case=", 1)
                    case, what = rest.rsplit(" what=", 1)
                    out.append((name, literal(case), what))
    return out


def regress_worker(facets, cases):
    by = {f.name: f for f in facets}
    for name, case in cases:
        _, msg = run_case(by[name], case)
        if msg is not None:
            return (name, repr(case), msg)
    return None


def findings_worker(facets, found):
    by = {f.name: f for f in facets}
    return [what for name, case, what in found if run_case(by[name], case)[1] is not None]


def run_check(pid, module, tier, seed, cores=8, only=None, scale=1.0):
    t0 = time.time()
    facets = [f for f in module.FACETS if only is None or f.name in only]
    regress = [r for r in load_regress(pid) if only is None or r[0] in only]
    found = load_findings(pid)
    total_w = sum(f.weight for f in facets)
    jobs = []
    limit = 600 if tier == "quick" else 4 * 3600
    if regress:
        jobs.append((("regress",), regress_worker, (facets, regress), limit))
    if found:
        jobs.append((("findings",), findings_worker, (facets, found), limit))
    for f in facets:
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * scale))
        shards = max(1, round(cores * f.weight / total_w))
        shards = max(1, min(shards, n // 100))
        if tier == "thorough":
            shards = max(shards, n // 20000)
        for k in range(shards):
            h = hashlib.sha256("{}/{}/{}/{}".format(seed, pid, f.name, k).encode()).digest()
            jobs.append(((f.name, k), shard_worker, (f, int.from_bytes(h[:8], "big"), max(1, n // shards)), limit))
    jobs.sort(key=lambda j: j[0][0] == "regress", reverse=True)
    stats = {f.name: {"evals": 0, "seen": set(), "samples": [], "labels": {}} for f in facets}
    failures, errors, lines = [], [], []
    for what, (kind, res) in run_jobs(jobs, cores):
        if kind == "error":
            errors.append("{}: {}".format("/".join(map(str, what)), res))
        elif what[0] == "regress":
            if res:
                failures.append(res)
        elif what[0] == "findings":
            lines += ["KNOWN-FINDING: property={} {}".format(pid, w) for w in res]
        else:
            s = stats[what[0]]
            s["evals"] += res["evals"]
            s["seen"] |= res["seen"]
            s["samples"] += res["samples"]
            for k, v in res["labels"].items():
                s["labels"][k] = s["labels"].get(k, 0) + v
            if res["fail"]:
                failures.append((what[0],) + res["fail"])
    # The smallest reproduction of each facet.
    best = {}
    for name, case, msg in failures:
        if name not in best or len(case) < len(best[name][0]):
            best[name] = (case, msg)
    samples = []
    for f in facets:
        for s in stats[f.name]["samples"][:2]:
            samples.append("{}: {}".format(f.name, s))
    wall = time.time() - t0
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evals"] for s in stats.values()),
            "distinct_nontrivial": sum(len(s["seen"]) for s in stats.values()),
            "rule": " | ".join("{}: {}".format(f.name, f.rule) for f in facets),
            "samples": samples,
            "facets": {f.name: {"evaluations": stats[f.name]["evals"],
                                "distinct_nontrivial": len(stats[f.name]["seen"]),
                                "labels": stats[f.name]["labels"]} for f in facets},
            "saved_cases_replayed": len(regress),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(best),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    for line in lines:
        print(line)
    print("{}: {} cases, {} distinct non-trivial, {:.1f} s".format(
        pid, evidence["coverage"]["evaluations"], evidence["coverage"]["distinct_nontrivial"], wall))
    if best:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for name, (case, msg) in sorted(best.items()):
            path = os.path.join(VERIF, "replay", "{}-{}.txt".format(pid, name))
            with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
                f.write("property: {}\nfacet: {}\nwhat: {}\ncase: {}\n".format(
                    pid, name, msg.replace("\n", " ")[:1000], case))
            print("  {}: {}".format(name, msg[:500]).encode("ascii", "backslashreplace").decode())
            print("  case: {}".format(case[:500]).encode("ascii", "backslashreplace").decode())
            print("VIOLATION property={} replay={}".format(pid, path))
        for e in errors:
            print("also: " + e, file=sys.stderr)
        return 1
    for e in errors:
        print("ERROR " + e, file=sys.stderr)
    return 2 if errors else 0


def run_replay(pid, module, path):
    with open(path, encoding="utf-8") as f:
        d = dict(line.rstrip("\n").split(": ", 1) for line in f if ": " in line)
    by = {f.name: f for f in module.FACETS}
    cases = [(d["facet"], literal(d["case"]))]
    facets = [by[d["facet"]]]
    for what, (kind, res) in run_jobs([(("replay",), regress_worker, (facets, cases), 600)], 1):
        if kind == "error":
            print("ERROR " + res, file=sys.stderr)
            return 2
        if res:
            print("  {}: {}".format(res[0], res[2]))
            print("VIOLATION property={} replay={}".format(pid, path))
            return 1
    print("{}: the saved case passes".format(pid))
    return 0
