"""C05: what luminophores and scatterers send out: wavelength and direction laws."""
from hypothesis import strategies as st

from harness import gen, oracle, scenes as sc, trace
from harness.core import Info, Part, require

ID = "C05"
RULE = ("A case is a few generated scenes with luminophores and scatterers of every phase function in "
        "rotated and nested solids, an emission method, a tracer and a seed. Emitted wavelengths are pushed "
        "through the reference conditional distribution (spectrum truncated at the absorbed wavelength or "
        "1.5kT above its energy) and directions, in the frame of the container, through the law of the "
        "phase function; the resulting values must be uniform (two-stage KS and moment tests) and inside "
        "the support (exactly). Evaluations are photon histories. Non-trivial: 100 or more emissions.")
ASSUMPTIONS = ["a statistical deviation counts only when seen in two independent samples "
               "(z > 6 or KS > 3.3, then z > 5.5 or KS > 3.0 on a sample four times larger)"]


@st.composite
def case(draw, tracer, count):
    kinds = ("box", "sphere", "cylinder") + (("mesh",) if tracer == "python" else ())
    vivid = draw(st.integers(0, 3)) > 0
    opt = sc.Options(lights_inside=vivid, strong=vivid, dense_components=True, max_components=2, max_nodes=3, kinds=kinds,
                     component_kinds=("luminophore", "luminophore", "scatterer"),
                     surfaces=("fresnel", "null"))
    return {"scenes": [draw(sc.scene(opt)) for _ in range(count)], "seed": draw(gen.seeds),
            "tracer": tracer, "method": draw(st.sampled_from(trace.METHODS))}


def prop(case, rays):
    models = [sc.Model(s) for s in case["scenes"]]
    total = {"n": 0}

    def run(stage, factor):
        obs = oracle.Observations()
        for k, (spec, model) in enumerate(zip(case["scenes"], models)):
            seed = case["seed"] + 7919 * stage + 104729 * k
            if case["tracer"] == "engine":
                hs = trace.engine(spec, rays * factor, seed, maxsteps=40, max_events=200,
                                  emit_method=case["method"]).histories()
            else:
                hs = trace.python(spec, rays * factor, seed, maxsteps=10,
                                  emit_method=case["method"])
            flat = oracle.Flat(hs)
            total["n"] += len(flat.lengths)
            oracle.observe_emission(model, flat, obs, case["method"])
        return obs

    obs = oracle.confirmed(run)
    counts = obs.counts()
    emitted = sum(v for k, v in counts.items() if "polar" in k)
    return Info(nontrivial=emitted >= 100, evaluations=total["n"],
                classes=sorted({"/".join(map(str, k)) for k, v in counts.items() if v >= 50}))


@st.composite
def emit_case(draw):
    c = draw(sc.component("c", kinds=("luminophore", "scatterer")))
    return {"component": c, "absorbed": draw(gen.num(301, 999)), "seed": draw(gen.seeds),
            "T": draw(st.one_of(st.just(300.0), gen.num(1.0, 2000.0))),
            "method": draw(st.sampled_from(trace.METHODS))}


def emit_prop(case):
    import numpy as np
    from pvtrace import Ray

    c = case["component"]
    comp = sc.build_component(c)
    lam = case["absorbed"]
    ray = Ray(position=(0.1, 0.2, 0.3), direction=(0.0, 0.6, 0.8), wavelength=lam,
              duration=1e-9, travelled=2.0, source="lamp")
    lum = c["type"] == "luminophore"
    if lum:
        x, cdf = sc.emission_cdf(c)
        lo = x[0]
        if case["method"] != "full":
            lo = lam
            if case["method"] == "kT":
                lo = 1240.0 / (1240.0 / lam + 1.5 * oracle.KB_EV * case["T"])
            lo = max(lo, x[0])
        p1 = float(np.interp(lo, x, cdf))
    n = 1500

    def run(stage, factor):
        obs = oracle.Observations()
        np.random.seed((case["seed"] + 7919 * stage) % 2 ** 32)
        for _ in range(n * factor):
            out = comp.emit(ray, method=case["method"], T=case["T"])
            require(out.source == "c" and tuple(out.position) == ray.position
                    and out.travelled == 2.0, "emit() changes more than it should: %r", out)
            u = [float(v) for v in out.direction]
            require(abs(sum(v * v for v in u) - 1) < 1e-9, "direction %s is not a unit vector", u)
            oracle.observe_direction(c.get("phase"), u, obs, (c["type"],))
            if not lum:
                require(out.wavelength == lam and out.duration == ray.duration,
                        "scattering changes wavelength or duration: %r", out)
                continue
            require(lo - 1e-6 <= out.wavelength <= x[-1] + 1e-9,
                    "%s emission at %r nm after absorption at %r nm (T=%r), limits %r-%r",
                    case["method"], out.wavelength, lam, case["T"], lo, x[-1])
            if p1 < 1 - 1e-6:
                v = (float(np.interp(out.wavelength, x, cdf)) - p1) / (1 - p1)
                obs.uniform(("wavelength", case["method"]), [min(1.0, max(0.0, v))])
            delay = out.duration - ray.duration
            if c.get("tau_rad"):
                require(delay >= 0, "negative delay %r", delay)
                obs.uniform(("delay",), [-np.expm1(-delay / c["tau_rad"])])
            else:
                require(delay == 0, "delay %r without a lifetime", delay)
        return obs

    obs = oracle.confirmed(run)
    return Info(nontrivial=lum and p1 < 0.99, evaluations=n,
                classes=[c["type"]] + sorted({"/".join(map(str, k)) for k in obs.counts()}))


PARTS = [
    Part("emit", emit_case, emit_prop, quick=240, thorough=8000, shards=8,
         rule="a luminophore with something left of its spectrum"),
    Part("engine", lambda: case("engine", 4), lambda c: prop(c, 2000), quick=80, thorough=4000, shards=8,
         rule="100 or more emissions"),
    Part("python", lambda: case("python", 2), lambda c: prop(c, 120), quick=32, thorough=1200, shards=8,
         rule="100 or more emissions"),
]
