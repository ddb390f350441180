"""C01: every photon history is complete, well formed and conserves what it must."""
from hypothesis import strategies as st

from harness import gen, oracle, scenes as sc, trace
from harness.core import Info, Part, require

ID = "C01"
RULE = ("A case is a generated scene (nested, rotated, grouped, touching solids; every component "
        "type; 1-3 lights), a tracer, budgets and a seed; evaluations are whole photon histories. "
        "Non-trivial: some history of the case has at least two events between GENERATE and its end.")
ASSUMPTIONS = ["numpy, trimesh and embree behave as documented",
               "scenes are inside the documented domain (DESIGN.md, 'Domain')"]

budgets = st.one_of(st.integers(0, 6), st.integers(7, 60), st.just(1000), st.just(1000))


@st.composite
def engine_case(draw):
    return {"scene": draw(sc.scene(sc.Options())), "seed": draw(gen.seeds),
            "maxsteps": draw(budgets),
            "max_events": draw(st.one_of(st.integers(4, 40), st.just(128), st.just(2400))),
            "method": draw(st.sampled_from(trace.METHODS)),
            "workers": draw(st.integers(1, 4))}


def finish(hs, extra=()):
    lengths = [len(h) for h in hs]
    kinds = sorted({e.name for h in hs for _, e, _ in h})
    return Info(nontrivial=max(lengths) >= 4, classes=kinds + list(extra), evaluations=len(hs))


def engine_prop(case):
    model = sc.Model(case["scene"])
    n = 120
    res = trace.engine(case["scene"], n, case["seed"], workers=case["workers"],
                       maxsteps=case["maxsteps"], max_events=case["max_events"],
                       emit_method=case["method"])
    hs = list(res.histories())
    require(len(hs) == n, "%d histories for %d rays", len(hs), n)
    oracle.check_grammar(model, hs, maxsteps=case["maxsteps"], max_events=case["max_events"])
    oracle.check_book(model, oracle.Flat(hs))
    counts = {}
    for h in hs:
        for _, e, _ in h:
            counts[e] = counts.get(e, 0) + 1
    require(dict(res.event_counts()) == counts, "event_counts() says %s, the histories have %s",
            res.event_counts(), counts)
    # sources: lights take turns
    lights = [x["light"]["name"] for x in case["scene"]["nodes"] if x.get("light")]
    first = [h[0][0].source for h in hs[:len(lights)]]
    require(sorted(first) == sorted(lights), "the first %d rays come from %s, the lights are %s",
            len(lights), first, lights)
    for r, h in enumerate(hs):
        require(h[0][0].source == first[r % len(lights)],
                "ray %d comes from %r, lights take turns in the order %s", r, h[0][0].source, first)
    return finish(hs)


@st.composite
def python_case(draw):
    surfaces = ("fresnel", "fresnel", "null", {"constant": draw(gen.num(0, 1))})
    return {"scene": draw(sc.scene(sc.Options(kinds=("box", "sphere", "cylinder", "mesh"),
                                              surfaces=surfaces, max_nodes=4))),
            "seed": draw(gen.seeds),
            "maxsteps": draw(st.one_of(st.integers(0, 6), st.integers(7, 40), st.integers(40, 80))),
            "maxpathlength": draw(st.one_of(st.none(), st.none(), gen.lognum(0.3, 100), st.just(0.0))),
            "method": draw(st.sampled_from(trace.METHODS))}


def python_prop(case):
    model = sc.Model(case["scene"])
    n = 12
    hs = trace.python(case["scene"], n, case["seed"], maxsteps=case["maxsteps"],
                      maxpathlength=case["maxpathlength"], emit_method=case["method"])
    require(len(hs) == n, "%d histories for %d rays", len(hs), n)
    oracle.check_grammar(model, hs, maxsteps=case["maxsteps"], maxpathlength=case["maxpathlength"])
    oracle.check_book(model, oracle.Flat(hs))
    # follow() is the same history without the metadata
    import numpy as np
    from pvtrace.algorithm import photon_tracer

    scene = sc.build(case["scene"])
    kw = dict(maxsteps=case["maxsteps"], emit_method=case["method"])
    if case["maxpathlength"] is not None:
        kw["maxpathlength"] = case["maxpathlength"]
    ray = hs[0][0][0]
    np.random.seed(7)
    a = photon_tracer.follow(scene, ray, **kw)
    np.random.seed(7)
    b = list(photon_tracer.step_forward(scene, ray, **kw))
    require(a == [(r, e) for r, e, _ in b], "follow() differs from step_forward()")
    return finish(hs, ["pathlimit"] if case["maxpathlength"] is not None else [])


PARTS = [
    Part("engine", engine_case, engine_prop, quick=1000, thorough=40000, shards=8,
         rule="some history has two or more events between GENERATE and its end"),
    Part("python", python_case, python_prop, quick=400, thorough=12000, shards=8,
         rule="some history has two or more events between GENERATE and its end"),
]
