"""Running generated-input checks: parts, shards, shrinking, evidence, replay."""
import hashlib
import json
import multiprocessing
import os
import signal
import struct
import sys
import tempfile
import time
import traceback

from harness import boot as _boot

VERIF = _boot.VERIF
REPO_PKG = os.path.realpath(os.path.join(_boot.REPO, "pvtrace")) + os.sep


class Violation(AssertionError):
    """The property does not hold for the case at hand."""

    def __init__(self, message, signature=None):
        super().__init__(message)
        self.signature = signature


class HarnessError(RuntimeError):
    pass


def require(condition, message, *args, signature=None):
    if not condition:
        if args:
            message = message % args
        raise Violation(message, signature)


def _from_code_under_test(exc):
    """Did this exception pass through the code under test?"""
    tb = exc.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if os.path.realpath(name).startswith(REPO_PKG) or name.endswith("_kernel.pyx"):
            return True
        tb = tb.tb_next
    return False


def _unreadable(exc):
    """Did the oracle stumble over a result of another form than promised (a missing value, a wrong shape)?

    Failures which may be the harness's own - names it does not find, calls it does not know, files, memory - are not
    counted as such."""
    text = str(exc)
    if isinstance(exc, AttributeError):
        return text.startswith("'NoneType' object")
    if isinstance(exc, TypeError):
        return "argument" not in text or "NoneType" in text
    return isinstance(exc, (ValueError, LookupError, ArithmeticError, AssertionError, struct.error))


def _jsonable(obj):
    import numpy as np

    if isinstance(obj, np.ndarray):
        return obj.tolist()
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, (set, frozenset)):
        return sorted(obj)
    if isinstance(obj, bytes):
        return {"__bytes__": obj.hex()}
    return repr(obj)


def dumps(case, **kw):
    return json.dumps(case, default=_jsonable, sort_keys=False, **kw)


def derive_seed(*parts):
    text = "/".join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], "big")


class Info:
    """What one evaluated case amounted to."""

    __slots__ = ("nontrivial", "classes", "evaluations", "sample")

    def __init__(self, nontrivial=True, classes=(), evaluations=1, sample=None):
        self.nontrivial = nontrivial
        self.classes = list(classes)
        self.evaluations = evaluations
        self.sample = sample


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.cases = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []

    def add(self, case, info):
        self.cases += 1
        self.evaluations += info.evaluations
        for c in info.classes:
            self.classes[c] = self.classes.get(c, 0) + 1
        if info.nontrivial:
            text = dumps(case)
            h = hashlib.sha256(text.encode()).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2 and len(text) < 6000:
                    self.samples.append(case if info.sample is None else info.sample)


class Part:
    """One generated-input search belonging to a property.

    strategy: () -> hypothesis strategy of JSON-able cases
    prop: case -> Info (raises Violation)
    quick/thorough: number of cases (over all shards)
    finish: optional callable(list of pooled observations) for whole-run checks
    """

    def __init__(self, name, strategy, prop, quick, thorough, shards=1,
                 rule="", pooled=None, thorough_shards=None):
        self.name = name
        self.strategy = strategy
        self.prop = prop
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.thorough_shards = thorough_shards or max(shards, 8)
        self.rule = rule
        self.pooled = pooled

    def evaluate(self, case):
        """prop(case), with exceptions of the code under test as violations."""
        try:
            info = self.prop(case)
        except Violation:
            raise
        except Exception as exc:
            if type(exc).__module__.startswith("hypothesis"):
                raise
            if _from_code_under_test(exc):
                tail = traceback.format_exception(exc)[-6:]
                raise Violation(
                    "the code under test raised on an accepted input: "
                    + "".join(tail)
                ) from exc
            if _unreadable(exc):
                raise Violation("a result cannot be read: " + "".join(traceback.format_exception(exc)[-4:])) from exc
            raise
        if info is None:
            info = Info()
        return info


def _run_shard(part, n, seed, note=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as _eng

    _eng.MAX_SHRINKING_SECONDS = int(os.environ.get("VERIF_SHRINK_S", "40"))
    stats = Stats()
    last = {}

    def body(case):
        if note is not None:
            note(case, None)
        try:
            info = part.evaluate(case)
        except Violation as v:
            last["case"] = case
            last["violation"] = v
            if note is not None:
                note(case, v)
            raise
        stats.add(case, info)

    test = given(part.strategy())(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=n, database=None, deadline=None, print_blob=False,
        report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=[
            HealthCheck.too_slow, HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    failure = None
    try:
        test()
    except BaseException as exc:
        if "violation" in last and isinstance(
            exc, (Violation, hypothesis.errors.Flaky, BaseExceptionGroup)
        ):
            failure = {
                "case": last["case"],
                "message": str(last["violation"]),
                "signature": last["violation"].signature,
            }
        else:
            raise
    return stats, failure


class Journal:
    """What a worker is doing, kept where it survives the worker's death."""

    def __init__(self):
        fd, self.path = tempfile.mkstemp(prefix="pvtcheck-")
        os.close(fd)

    def note(self, case, violation):
        failing = violation is not None
        body = {"case": case, "failing": failing}
        if failing:
            body["message"] = str(violation)
            body["signature"] = violation.signature
        path = self.path + (".failing" if failing else "")
        with open(path, "w") as fp:
            fp.write(dumps(body))

    def read(self, failing):
        try:
            with open(self.path + (".failing" if failing else "")) as fp:
                return json.load(fp)
        except (OSError, ValueError):
            return None

    def age(self):
        return time.time() - os.stat(self.path).st_mtime

    def remove(self):
        for p in (self.path, self.path + ".failing"):
            if os.path.exists(p):
                os.unlink(p)


def _alone_main(conn, part, case):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        part.evaluate(case)
        conn.send(("held", None))
    except Violation as v:
        conn.send(("violation", str(v)))
    except BaseException as exc:
        conn.send(("error", repr(exc)))
    conn.close()
    os._exit(0)


def alone(part, case, timeout):
    """Evaluate a case in a process of its own."""
    ctx = multiprocessing.get_context("fork")
    r, w = ctx.Pipe(duplex=False)
    p = ctx.Process(target=_alone_main, args=(w, part, case))
    p.start()
    w.close()
    try:
        if not r.poll(timeout):
            p.kill()
            p.join()
            return "hung", "not finished after %g s" % timeout
        try:
            out = r.recv()
        except EOFError:
            p.join()
            return "crashed", "the process ended with status %s" % p.exitcode
        p.join()
        return out
    finally:
        r.close()


def _shard_main(conn, part, n, seed, quiet, journal):
    try:
        if quiet:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            if not os.environ.get("VERIF_STDERR"):
                os.dup2(devnull, 2)
        import numpy as np
        np.seterr(all="ignore")
        import warnings
        warnings.simplefilter("ignore")
        t0 = time.time()
        stats, failure = _run_shard(part, n, seed, journal.note)
        conn.send(("ok", stats, failure, time.time() - t0))
    except BaseException as exc:
        conn.send(("error", "".join(traceback.format_exception(exc)[-12:]), None, 0))
    finally:
        conn.close()
        os._exit(0)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        data = json.load(fp)
    return [f for f in data.get("known", []) if f["property"] == prop]


def write_replay(prop, part, failure):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    body = {"property": prop, "part": part, "message": failure["message"],
            "case": failure["case"]}
    text = dumps(body, indent=1)
    h = hashlib.sha256(text.encode()).hexdigest()[:10]
    path = os.path.join(folder, "%s-%s-%s.json" % (prop, part, h))
    with open(path, "w") as fp:
        fp.write(text + "\n")
    return path


def run_check(module, tier, seed, only=None, scale=1.0, jobs=8):
    prop = module.ID
    t0 = time.time()
    tasks = []
    for part in module.PARTS:
        if only and part.name not in only:
            continue
        n = part.quick if tier == "quick" else part.thorough
        n = max(1, int(n * scale))
        shards = part.shards if tier == "quick" else part.thorough_shards
        shards = max(1, min(shards, n))
        for k in range(shards):
            share = n // shards + (1 if k < n % shards else 0)
            tasks.append((part, share, derive_seed(seed, prop, part.name, k), k))
    # Long shards first would need costs; interleave parts instead.
    tasks.sort(key=lambda t: t[3])
    ctx = multiprocessing.get_context("fork")
    running = {}
    results = []
    failures = []
    errors = []
    queue = [t + (0,) for t in tasks]
    restarts = []
    limit = float(os.environ.get("VERIF_PART_LIMIT", "720" if tier == "quick" else "36000"))
    stuck = float(os.environ.get("VERIF_CASE_LIMIT", "200" if tier == "quick" else "1200"))

    def post_mortem(part, n, s, k, tries, journal, status):
        """A worker died or hung: is the code under test to blame?"""
        found = journal.read(failing=True)
        if found:
            # It was shrinking a violation it had already found
            failures.append((part, found))
            return
        last = journal.read(failing=False)
        if last:
            verdict, text = alone(part, last["case"], stuck)
            if verdict in ("violation", "crashed", "hung"):
                failures.append((part, {
                    "case": last["case"], "signature": None,
                    "message": text if verdict == "violation" else
                    "the process running this case %s (%s)" % (verdict, text)}))
                return
        # Not this case: a library gave way after many others
        if tries < 3:
            restarts.append("%s[%d]: %s" % (part.name, k, status))
            queue.append((part, n, derive_seed(s, "again"), k, tries + 1))
        else:
            errors.append("%s[%d] %s" % (part.name, k, status))

    while (queue or running) and not failures and not errors:
        while queue and len(running) < jobs:
            part, n, s, k, tries = queue.pop(0)
            r, w = ctx.Pipe(duplex=False)
            journal = Journal()
            p = ctx.Process(target=_shard_main, args=(w, part, n, s, True, journal))
            p.start()
            w.close()
            running[r] = (p, part, n, s, k, tries, journal)
        ready = multiprocessing.connection.wait(list(running), timeout=1.0)
        for r in ready:
            p, part, n, s, k, tries, journal = running.pop(r)
            try:
                status, a, failure, wall = r.recv()
            except EOFError:
                p.join()
                post_mortem(part, n, s, k, tries, journal, "died (exit %s)" % p.exitcode)
                journal.remove()
                continue
            p.join()
            journal.remove()
            if status == "error":
                errors.append("%s[%d]: %s" % (part.name, k, a))
            else:
                results.append((part, a, wall))
                if failure:
                    failures.append((part, failure))
        late = time.time() - t0 > limit
        for r in list(running):
            p, part, n, s, k, tries, journal = running[r]
            if late or journal.age() > stuck:
                del running[r]
                p.kill()
                p.join()
                if late and not journal.read(failing=True):
                    errors.append("time limit reached in %s[%d]" % (part.name, k))
                else:
                    post_mortem(part, n, s, k, 3, journal, "made no progress")
                journal.remove()
    for r, (p, part, n, s, k, tries, journal) in running.items():
        p.terminate()
    for r, (p, part, n, s, k, tries, journal) in running.items():
        p.join(5)
        if p.is_alive():
            p.kill()
            p.join()
        found = journal.read(failing=True)
        if found and not failures:
            failures.append((part, found))
        journal.remove()
    if failures:
        errors = []
    wall = time.time() - t0

    parts = {}
    for part, stats, w in results:
        agg = parts.setdefault(part.name, {
            "evaluations": 0, "cases": 0, "nontrivial": set(), "classes": {},
            "samples": [], "rule": part.rule, "wall_s": 0.0})
        agg["evaluations"] += stats.evaluations
        agg["cases"] += stats.cases
        agg["nontrivial"] |= stats.nontrivial
        agg["wall_s"] += w
        for c, v in stats.classes.items():
            agg["classes"][c] = agg["classes"].get(c, 0) + v
        if len(agg["samples"]) < 1:
            agg["samples"] += stats.samples[:1]
    samples = []
    for name, agg in parts.items():
        for s in agg.pop("samples"):
            samples.append({"part": name, "case": s})
    coverage = {
        "evaluations": sum(a["evaluations"] for a in parts.values()),
        "distinct_nontrivial": sum(len(a["nontrivial"]) for a in parts.values()),
        "rule": module.RULE,
        "samples": json.loads(dumps(samples)),
        "cases": sum(a["cases"] for a in parts.values()),
        "parts": {
            name: {
                "cases": a["cases"], "evaluations": a["evaluations"],
                "distinct_nontrivial": len(a["nontrivial"]),
                "nontrivial_when": a["rule"],
                "classes": dict(sorted(a["classes"].items())),
                "cpu_s": round(a["wall_s"], 2),
            } for name, a in parts.items()
        },
    }
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(failures),
        "worker_restarts": restarts,
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fp:
            fp.write(dumps(evidence, indent=1) + "\n")
    for name, a in coverage["parts"].items():
        print("%s %-28s cases=%-6d evals=%-8d nontrivial=%-6d cpu=%.1fs %s" % (
            prop, name, a["cases"], a["evaluations"], a["distinct_nontrivial"],
            a["cpu_s"], a["classes"] if os.environ.get("VERIF_CLASSES") else ""))
    known = known_findings(prop)
    code = 0
    if failures:
        code = 1
        for part, failure in failures:
            path = write_replay(prop, part.name, failure)
            print("part %s: %s" % (part.name, failure["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    elif errors:
        code = 2
        for e in errors:
            print("ERROR %s %s" % (prop, e))
    if not failures:
        for f in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    print("%s %s seed=%d wall=%.1fs exit=%d" % (prop, tier, seed, wall, code))
    return code


def replay(module, path):
    with open(path) as fp:
        body = json.load(fp)
    part = {p.name: p for p in module.PARTS}[body["part"]]
    verdict, text = alone(part, body["case"], 600)
    if verdict in ("violation", "crashed", "hung"):
        print("part %s: %s" % (part.name, text))
        print("VIOLATION property=%s replay=%s" % (module.ID, path))
        return 1
    if verdict == "error":
        print("ERROR %s %s" % (module.ID, text))
        return 2
    print("replay: the property holds for this case")
    return 0
