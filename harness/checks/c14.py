"""C14: Scene.simulate traces every ray once, whatever the workers."""
import ctypes
import math
import multiprocessing
import multiprocessing.managers
import queue as plain

import numpy as np
from hypothesis import strategies as st

from harness import oracle, scenes as sc, trace
from harness.core import Info, Part, require
from harness.gen import num, seeds

ID = "C14"
RULE = ("A case is a generated scene, a number of rays (0-70), a number of worker processes, a seed or none, and a "
        "way of asking for the results (list, queue, end rays only). Evaluations are rays. Non-trivial: more than "
        "one ray and either more than one worker process used or some history longer than three events.")
ASSUMPTIONS = ["multiprocessing forks its workers and its manager's queues keep the order of each producer",
               "two rays of a light with a continuous mask coincide with probability zero"]

TERMINAL = ("EXIT", "NONRADIATIVE", "REACT", "KILL")
OPTIONS = dict(kinds=("box", "sphere", "cylinder", "mesh"), max_nodes=3, max_components=2)


@st.composite
def case(draw, ways):
    bare = draw(st.integers(0, 3)) == 0
    if bare:        # rays so quick that one process could do another's share
        spec = {"nodes": [
            {"name": "world", "parent": None, "location": [0.0] * 3, "rotations": [], "n": 1.0, "surface": "fresnel",
             "shape": {"type": "sphere", "radius": 5.0}, "components": []},
            {"name": "lamp", "parent": 0, "location": [draw(num(-1, 1)), 0.0, 0.0], "rotations": [], "shape": None,
             "components": [], "light": {"name": "lamp", "wavelength": None, "direction": draw(st.sampled_from(
                 [None, "isotropic"])), "position": {"cube": [0.5, 0.5, 0.5]}}}]}
    else:
        spec = draw(sc.scene(sc.Options(**OPTIONS)))
    for n in spec["nodes"]:     # two rays of one light are never the same
        L = n.get("light")
        if L and not isinstance(L["wavelength"], dict) and L["direction"] is None:
            L["position"] = L["position"] or {"cube": [0.01, 0.01, 0.01]}
    workers = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 7, None]))
    rays = draw(st.one_of(st.integers(0, 9), st.integers(10, 70), st.sampled_from([1, 8, 12, 24])))
    if bare and workers:
        rays = workers * draw(st.integers(1, 3)) + draw(st.integers(0, 1))
    return {"scene": spec, "rays": rays, "workers": workers, "way": draw(st.sampled_from(ways)),
            "seeded": draw(st.booleans()) and (workers == 1 or draw(st.booleans())), "seed": draw(seeds)}


def check_history(h, where):
    """h: [(ray, event name)]"""
    names = [e for _, e in h]
    require(len(names) >= 2 and names[0] == "GENERATE" and names[-1] in TERMINAL, "%s is %s", where, names)
    require(all(n not in TERMINAL and (k == 0 or n != "GENERATE") for k, n in enumerate(names[:-1])),
            "%s goes on after its end: %s", where, names)
    for k in range(1, len(h)):
        a, b = h[k - 1][0], h[k][0]
        step = math.dist(a.position, b.position)
        require(abs(b.travelled - a.travelled - step) < 1e-6 * (1 + b.travelled), "%s: from %s to %s the ray moved by "
                "%g but travelled %g", where, names[k - 1], names[k], step, b.travelled - a.travelled)
        require(b.duration >= a.duration, "%s: duration falls from %r to %r", where, a.duration, b.duration)
        if names[k] in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
            require(names[k - 1] == "ABSORB", "%s: %s follows %s", where, names[k], names[k - 1])
        if names[k - 1] == "ABSORB":
            require(names[k] in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"), "%s: %s follows ABSORB", where, names[k])


def check_sources(spec, starts, workers):
    """Every light has its share and no ray is emitted twice."""
    lights = [n["light"]["name"] for n in spec["nodes"] if n.get("light")]
    n = len(starts)
    for name in lights:
        k = sum(r.source == name for r in starts)
        require(abs(k - n / len(lights)) <= workers, "light %r has %d of %d rays of %d lights, with %d workers", name,
                k, n, len(lights), workers)
    seen = set((tuple(r.position), tuple(r.direction), r.wavelength, r.source) for r in starts)
    require(len(seen) == n, "only %d of the %d rays differ, with %d workers", len(seen), n, workers)


def equal(a, b):
    ra, rb = a[0], b[0]
    return (a[1] == b[1] and tuple(ra.position) == tuple(rb.position) and tuple(ra.direction) == tuple(rb.direction)
            and ra.wavelength == rb.wavelength and ra.travelled == rb.travelled and ra.duration == rb.duration
            and ra.source == rb.source)


def workers_of(c):
    return c["workers"] or max(1, multiprocessing.cpu_count() // 2)


def run(c, scene, **kw):
    """scene.simulate as the case asks, or None if it is refused as it should be."""
    seed = c["seed"] % 2 ** 31 if c["seeded"] else None
    np.random.seed((c["seed"] + 17) % 2 ** 32)
    many = workers_of(c) > 1
    try:
        return scene.simulate(c["rays"], workers=c["workers"], seed=seed, **kw)
    except ValueError as exc:
        require(many and c["seeded"] and "eed" in str(exc), "simulate refuses: %s", exc)
        return None


def reference(c):
    """The histories of one process with this seed."""
    return [[(r, e.name, m) for r, e, m in h] for h in trace.python(c["scene"], c["rays"], c["seed"] % 2 ** 31)]


# ------------------------------------------------------------------- as lists
def list_prop(c):
    scene = sc.build(c["scene"])
    workers = workers_of(c)
    out = run(c, scene)
    if out is None:
        return Info(nontrivial=c["rays"] > 1, evaluations=1, classes=["refused"])
    require(len(out) == c["rays"], "%d histories for %d rays with %d workers", len(out), c["rays"], workers)
    hs = [[(r, e.name) for r, e in h] for h in out]
    for k, h in enumerate(hs):
        check_history(h, "history %d" % k)
    check_sources(c["scene"], [h[0][0] for h in hs], workers)
    if c["seeded"]:     # not refused: then it is that sequence
        if workers > 1:
            require(c["rays"] < workers, "a seed with %d workers is accepted", workers)
        want = reference(c)
        for k, (a, b) in enumerate(zip(hs, want)):
            require(len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b)), "history %d with seed %d is\n%s\n"
                    "traced directly\n%s", k, c["seed"] % 2 ** 31, a, [x[:2] for x in b])
    else:               # the next call does not repeat anything
        again = scene.simulate(c["rays"], workers=c["workers"])
        require(len(again) == c["rays"], "%d histories for %d rays the second time", len(again), c["rays"])
        check_sources(c["scene"], [h[0][0] for h in again], workers)
        both = [h[0][0] for h in hs] + [h[0][0] for h in again]
        if c["rays"]:
            require(len({(tuple(r.position), tuple(r.direction), r.wavelength, r.source) for r in both}) == len(both),
                    "the second call repeats rays of the first, with %d workers", workers)
    used = 1 if c["rays"] < workers else workers
    return Info(nontrivial=c["rays"] > 1 and (used > 1 or any(len(h) > 3 for h in hs)), evaluations=c["rays"],
                classes=["workers=%d" % used, "seeded" if c["seeded"] else "unseeded"])


# ------------------------------------------------------------------- as queue
_manager = None


def end_with_parent():
    """The shard ends without running exit handlers: have the kernel end its manager."""
    ctypes.CDLL(None).prctl(1, 9)


def fresh_queue(workers, rays):
    global _manager
    if workers == 1 or rays < workers:
        return plain.Queue()
    if _manager is None:
        _manager = multiprocessing.managers.SyncManager()
        _manager.start(end_with_parent)
    return _manager.Queue()


def drain(q):
    out = []
    while True:
        try:
            out.append(q.get_nowait())
        except plain.Empty:
            return out


def is_end(event, m):
    if event in ("GENERATE", "NONRADIATIVE", "REACT", "KILL", "EXIT"):
        return True
    if event == "REFLECT":
        return m["hit"] == m["adjacent"]
    if event == "TRANSMIT":
        return m["hit"] in (m["adjacent"], m["container"])
    return False


def queue_prop(c):
    scene = sc.build(c["scene"])
    workers = workers_of(c)
    end = c["way"] == "end"
    q = fresh_queue(workers, c["rays"])
    run(c, scene, queue=q, end_rays=end)
    items = drain(q)
    if workers > 1 and c["seeded"] and not items:
        return Info(nontrivial=c["rays"] > 1, evaluations=1, classes=["refused"])
    groups = {}
    for item in items:
        require(len(item) == 5, "an item on the queue is %r", item)
        pid, idx, ray, event, meta = item
        groups.setdefault((pid, idx), []).append((ray, event.name, meta))
    require(len(groups) == c["rays"], "the queue has %d different rays for %d rays, with %d workers", len(groups),
            c["rays"], workers)
    for key, h in groups.items():
        where = "ray %s on the queue" % (key,)
        if end:
            names = [e for _, e, _ in h]
            require(names[0] == "GENERATE" and names[-1] in TERMINAL, "%s is %s", where, names)
            require(all(n not in TERMINAL and (k == 0 or n != "GENERATE") for k, n in enumerate(names[:-1])),
                    "%s goes on after its end: %s", where, names)
            for r, e, m in h:
                require(is_end(e, m), "%s: end rays have %s with %s", where, e, m)
        else:
            check_history([(r, e) for r, e, _ in h], where)
            oracle.check_grammar(sc.Model(c["scene"]), [[(r, _E(e), m) for r, e, m in h]])
    check_sources(c["scene"], [h[0][0] for h in groups.values()], workers)
    if c["seeded"]:
        if workers > 1:
            require(c["rays"] < workers, "a seed with %d workers is accepted", workers)
        want = reference(c)
        got = list(groups.values())
        for k, h in enumerate(want):
            if end:
                h = [x for x in h if is_end(x[1], x[2])]
            require(len(got[k]) == len(h) and all(equal(a, b) and a[2] == b[2] for a, b in zip(got[k], h)),
                    "ray %d with seed %d is on the queue as\n%s\ntraced directly it is\n%s", k, c["seed"] % 2 ** 31,
                    got[k], h)
    used = 1 if c["rays"] < workers else workers
    return Info(nontrivial=c["rays"] > 1 and (used > 1 or any(len(h) > 3 for h in groups.values())),
                evaluations=c["rays"], classes=["workers=%d" % used, c["way"],
                                                "seeded" if c["seeded"] else "unseeded"])


class _E:
    def __init__(self, name):
        self.name = name


PARTS = [
    Part("list", lambda: case(["list"]), list_prop, quick=240, thorough=6000, shards=8,
         rule="more than one ray, and several worker processes or a history of over three events"),
    Part("queue", lambda: case(["all", "end"]), queue_prop, quick=240, thorough=6000, shards=8,
         rule="more than one ray, and several worker processes or a history of over three events"),
]
