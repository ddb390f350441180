"""C08: recorder tallies are those of the histories."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from harness import gen, scenes as sc, tallies, trace
from harness.checks import c02
from harness.core import Info, Part, require

ID = "C08"
RULE = ("A case is a generated scene with 2-8 (many: up to 256) generated recorders (every event, facet normals with various "
        "tolerances, histograms and heatmaps over every property), a step budget, workers and strides. "
        "The reference recomputes every number of every recorder from the histories: native recorders of two "
        "runs (everything logged, and sparsely logged) and tally_histories over both tracers' histories. "
        "Evaluations are rays. Non-trivial: some recorder counted rays.")
ASSUMPTIONS = ["a value within rounding of a bin edge may fall on either side",
               "recorder names are unique within a scene"]


@st.composite
def engine_case(draw):
    strong = draw(st.booleans())
    opt = sc.Options(max_nodes=5, strong=strong, lights_inside=draw(st.integers(0, 2)) == 0)
    return {"scene": draw(tallies.with_recorders(sc.scene(opt))), "seed": draw(gen.seeds),
            "maxsteps": draw(st.one_of(st.integers(0, 8), st.integers(20, 120))),
            "rays": draw(st.integers(1, 160)),
            "workers": draw(st.integers(1, 5)), "workers2": draw(st.integers(1, 8)),
            "stride": draw(st.sampled_from([0, 0, 1, 2, 3, 7, 50, 1000])),
            "max_events": draw(st.sampled_from([4, 6, 12, 128])),
            "method": draw(st.sampled_from(trace.METHODS))}


def engine_prop(case):
    from pvtrace.engine import tally_histories

    spec = case["scene"]
    model = sc.Model(spec)
    n = case["rays"]
    full = trace.engine(spec, n, case["seed"], workers=case["workers"], maxsteps=case["maxsteps"],
                        max_events=2 * case["maxsteps"] + 8, emit_method=case["method"])
    hs = list(full.histories())
    native = full.recorders
    touched, multi = tallies.compare(model, hs, native, "engine")
    scene = sc.build(spec)
    tallies.compare(model, hs, tally_histories(scene, hs), "tally_histories of the engine")
    sparse = trace.engine(spec, n, case["seed"], workers=case["workers2"], maxsteps=case["maxsteps"],
                          max_events=case["max_events"], record_every=case["stride"],
                          emit_method=case["method"]).recorders
    require(list(sparse) == list(native), "recorders %s and %s", list(sparse), list(native))
    for name, a in native.items():
        b = sparse[name]
        where = "recorder %s, logging every %d of %d rays (%d events)" % (
            name, case["stride"], n, case["max_events"])
        require((a.rays, a.crossings) == (b.rays, b.crossings),
                "%s: rays, crossings %s, when logging everything %s",
                where, (b.rays, b.crossings), (a.rays, a.crossings))
        for p in tallies.MOMENTS:
            x, y = a.mean(p), b.mean(p)
            require(a.rays == 0 or abs(x - y) <= 1e-9 * abs(x) + 1e-300,
                    "%s: mean %s %r and %r", where, p, y, x)
        for k in range(len(a.spec.histograms)):
            require(np.array_equal(a.histogram(k)[-1], b.histogram(k)[-1]),
                    "%s: histogram %d differs", where, k)
    classes = ["touched"] * bool(touched) + ["repeated crossings"] * bool(multi)
    for node in spec["nodes"]:
        for r in node.get("recorders", []):
            if native[r["name"]].rays:
                classes.append(r["event"] + ("/facet" if r.get("facet") else ""))
                classes += [h["prop"] + ("/2d" if "prop_b" in h else "") for h in r["histograms"]]
    return Info(nontrivial=touched > 0, evaluations=2 * n, classes=sorted(set(classes)))


@st.composite
def python_case(draw):
    opt = sc.Options(max_nodes=4, kinds=("box", "sphere", "cylinder", "mesh"),
                     strong=draw(st.booleans()),
                     surfaces=("fresnel", "null", {"constant": draw(gen.num(0, 1))}))
    return {"scene": draw(tallies.with_recorders(sc.scene(opt))), "seed": draw(gen.seeds),
            "maxsteps": draw(st.one_of(st.integers(0, 6), st.integers(7, 40))),
            "maxpathlength": draw(st.one_of(st.none(), st.none(), gen.lognum(0.3, 30)))}


def python_prop(case):
    from pvtrace.engine import tally_histories

    spec = case["scene"]
    model = sc.Model(spec)
    scene = sc.build(spec)
    n = 14
    hs = trace.python(spec, n, case["seed"], maxsteps=case["maxsteps"], scene=scene,
                      maxpathlength=case["maxpathlength"])
    touched, multi = tallies.compare(model, hs, tally_histories(scene, iter(hs)), "tally_histories")
    return Info(nontrivial=touched > 0, evaluations=n,
                classes=["touched"] * bool(touched) + ["repeated crossings"] * bool(multi))


# ------------------------------------------------------------------ as many as the engine holds
@st.composite
def many_case(draw):
    """Up to 128 solids with up to 256 recorders."""
    case = draw(c02.crowd_case("engine"))
    return {"scene": case["scene"], "seed": case["seed"], "recorders": draw(st.sampled_from([20, 31, 33, 63, 65, 129, 255, 256])),
            "pick": draw(gen.seeds), "workers": draw(st.integers(1, 6)), "maxsteps": draw(st.sampled_from([6, 300, 300])),
            "rays": draw(st.integers(1, 24)), "stride": draw(st.sampled_from([0, 1, 2, 1000]))}


def many_prop(case):
    rng = random.Random(case["pick"])
    spec = {**case["scene"], "nodes": [dict(n) for n in case["scene"]["nodes"]]}
    model = sc.Model(spec)
    for k in range(case["recorders"]):
        node = rng.choice(model.solids)
        root = node == 0
        r = {"name": "rec-%d" % k, "event": rng.choice(["exit", "exit", "killed"] if root else
                                                      ["entering", "escaping", "entering", "escaping", "reflected", "killed"]),
             "histograms": []}
        if r["event"] not in ("killed",) and rng.random() < 0.3:
            r["facet"] = rng.choice([[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [1.0, 0.0, 0.0]])
            r["atol"] = rng.choice([1e-3, 0.3])
        for _ in range(rng.choice([0, 0, 1, 2])):
            prop, lo, hi = rng.choice([("wavelength", 500, 600), ("angle", 0, math.pi / 2), ("duration", 0, 1e-8),
                                       ("pathlength", 0, 60), ("x", -0.5, 0.5), ("z", -0.7, 0.6)])
            h = {"prop": prop, "range": [lo, hi, rng.randint(1, 40)]}
            if rng.random() < 0.4:
                h.update(prop_b="y", range_b=[-0.5, 0.5, rng.randint(1, 40)])
            r["histograms"].append(h)
        spec["nodes"][node].setdefault("recorders", []).append(r)
    kw = dict(maxsteps=case["maxsteps"], max_events=2 * case["maxsteps"] + 8)
    full = trace.engine(spec, case["rays"], case["seed"], workers=1, **kw)
    hs = list(full.histories())
    touched, multi = tallies.compare(model, hs, full.recorders, "engine")
    again = trace.engine(spec, case["rays"], case["seed"], workers=case["workers"], record_every=case["stride"], **kw)
    require(list(again.recorders) == list(full.recorders), "recorders %s and %s", list(again.recorders), list(full.recorders))
    for key in ("rec_distinct", "rec_crossings", "rec_bins"):
        require(np.array_equal(full.data[key], again.data[key]), "%s differs with %d workers, logging every %d",
                key, case["workers"], case["stride"])
    return Info(nontrivial=touched > 10, evaluations=case["rays"],
                classes=["recorders %s" % (">= 129" if case["recorders"] > 128 else ">= 65" if case["recorders"] > 64 else "< 65"),
                         "solids %s" % ("> 64" if len(model.solids) > 64 else "<= 64")] + ["repeated crossings"] * bool(multi))


@st.composite
def large_case(draw):
    opt = sc.Options(max_nodes=3, strong=draw(st.booleans()), lights_inside=draw(st.booleans()))
    spec = draw(tallies.with_recorders(sc.scene(opt), max_recorders=3))
    for i, node in enumerate(spec["nodes"]):
        if node.get("shape"):
            node.setdefault("recorders", []).extend(
                {"name": "%s-%d" % (event, i), "event": event, "histograms": [{"prop": prop, "range": [0.0, stop, 3]}]}
                for event, prop, stop in [("killed", "wavelength", 1000.0), ("lost", "pathlength", 100.0)]
                + [("entering", "angle", 2.0)] * (i > 0) + [("exit", "angle", 2.0)] * (i == 0))
    return {"scene": spec, "seed": draw(gen.seeds),
            "rays": draw(st.sampled_from([33000, 66000, 70000])), "workers": draw(st.integers(1, 8)),
            "maxsteps": draw(st.sampled_from([1, 2, 3, 6])), "method": draw(st.sampled_from(trace.METHODS))}


def large_prop(case):
    model = sc.Model(case["scene"])
    run = trace.engine(case["scene"], case["rays"], case["seed"], workers=case["workers"], maxsteps=case["maxsteps"],
                       max_events=2 * case["maxsteps"] + 8, emit_method=case["method"])
    touched, multi = tallies.compare(model, list(run.histories()), run.recorders, "%d rays" % case["rays"])
    most = max([r.rays for r in run.recorders.values()], default=0)
    return Info(nontrivial=touched > 0, evaluations=case["rays"],
                classes=["touched"] * bool(touched) + ["rays >= 2^15"] * (most >= 2 ** 15) + ["rays >= 2^16"] * (most >= 2 ** 16))


PARTS = [
    Part("engine", engine_case, engine_prop, quick=1600, thorough=30000, shards=8,
         rule="some recorder counted rays"),
    Part("python", python_case, python_prop, quick=400, thorough=9000, shards=8,
         rule="some recorder counted rays"),
    Part("many", many_case, many_prop, quick=96, thorough=6000, shards=8, rule="more than 10 recorders counted rays"),
    Part("large", large_case, large_prop, quick=16, thorough=400, shards=8, rule="some recorder counted rays"),
]
