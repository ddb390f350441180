"""C04: absorption in a volume: Beer-Lambert law, competition, yields, delays."""
from hypothesis import strategies as st

from harness import gen, oracle, scenes as sc, trace
from harness.core import Info, Part

ID = "C04"
RULE = ("A case is a few generated scenes whose solids hold 1-4 components each, a tracer and a seed. For "
        "every free path the chance of absorption before the surface (1-exp(-a*d), a from the component "
        "spectra at the photon's wavelength, d from the reference geometry), the depth law, the chance of "
        "each component being the absorber, the radiative yield and the delay law are tested by two-stage "
        "z and Kolmogorov-Smirnov tests; impossible outcomes are violations outright. Evaluations are "
        "photon histories. Non-trivial: some case statistic has 100 or more observations.")
ASSUMPTIONS = ["a statistical deviation counts only when seen in two independent samples "
               "(z > 6 or KS > 3.3, then z > 5.5 or KS > 3.0 on a sample four times larger)"]


@st.composite
def case(draw, tracer, count):
    kinds = ("box", "sphere", "cylinder") + (("mesh",) if tracer == "python" else ())
    vivid = draw(st.integers(0, 3)) > 0
    opt = sc.Options(lights_inside=vivid, strong=vivid, dense_components=True, max_components=4, max_nodes=3, kinds=kinds,
                     surfaces=("fresnel", "null"), min_solids=1)
    scenes = [draw(sc.scene(opt)) for _ in range(count)]
    if draw(st.integers(0, 3)) == 0:        # the same, larger or smaller
        scenes = [sc.scaled(s, 2.0 ** draw(st.one_of(st.integers(-5, 14), st.integers(16, 18)))) for s in scenes]
    return {"scenes": scenes, "seed": draw(gen.seeds),
            "tracer": tracer, "method": draw(st.sampled_from(trace.METHODS))}


def prop(case, rays):
    models = [sc.Model(s) for s in case["scenes"]]
    total = {"n": 0}

    def run(stage, factor):
        obs = oracle.Observations()
        for k, (spec, model) in enumerate(zip(case["scenes"], models)):
            seed = case["seed"] + 7919 * stage + 104729 * k
            if case["tracer"] == "engine":
                hs = trace.engine(spec, rays * factor, seed, maxsteps=40, max_events=200,
                                  emit_method=case["method"]).histories()
            else:
                hs = trace.python(spec, rays * factor, seed, maxsteps=8,
                                  emit_method=case["method"])
            flat = oracle.Flat(hs)
            total["n"] += len(flat.lengths)
            oracle.observe_volume(model, flat, oracle.Steps(model, flat), obs)
        return obs

    obs = oracle.confirmed(run)
    counts = obs.counts()
    return Info(nontrivial=any(v >= 100 for v in counts.values()), evaluations=total["n"],
                classes=sorted({"/".join(map(str, k)) for k, v in counts.items() if v >= 50}))


PARTS = [
    Part("engine", lambda: case("engine", 4), lambda c: prop(c, 1200), quick=40, thorough=2400, shards=8,
         rule="some statistic has 100 or more observations"),
    Part("python", lambda: case("python", 2), lambda c: prop(c, 120), quick=32, thorough=1200, shards=8,
         rule="some statistic has 100 or more observations"),
]
