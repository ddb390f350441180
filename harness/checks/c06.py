"""C06: the engine and the Python tracer give the same distribution of outcomes."""
import json
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, scenes as sc, tallies, trace
from harness.core import Info, Part, Violation, require

ID = "C06"
RULE = ("A case is a generated scene with lights, components, surfaces and recorders, an emission method, a "
        "step budget and a seed. Both tracers run it; every class of outcome (final event and node, events "
        "at each node, components involved, recorder rays) is compared by an exact hypergeometric test and "
        "every quantity (interactions, events, length, duration, wavelength, position and direction at the "
        "end, every recorder quantity) by a two-sample Kolmogorov-Smirnov test. A difference is reported when "
        "the same statistic fails in three independent, growing samples (p < 1e-3, 1e-4, 1e-7). Evaluations "
        "are statistics compared. Non-trivial: five or more classes of outcome that are neither rare nor sure.")
ASSUMPTIONS = ["on a face shared by two touching solids it is not specified which of both is reported as "
               "hit: scenes with such faces are compared without it, and without recorders",
               "differences below the resolution of the samples (some per cent of the rays) are left to the "
               "absolute laws of C03-C05, which both tracers are held to with many more events"]


@st.composite
def case(draw):
    vivid = draw(st.integers(0, 3)) > 0
    touching = draw(st.integers(0, 2)) == 0
    opt = sc.Options(lights_inside=vivid, strong=vivid, max_nodes=4, max_components=3, touching=touching,
                     surfaces=("fresnel",) if touching else ("fresnel", "fresnel", "null"))
    scene = sc.scene(opt) if touching else tallies.with_recorders(sc.scene(opt), max_recorders=3)
    return {"scene": draw(scene), "seed": draw(gen.seeds), "touching": touching,
            "method": draw(st.sampled_from(trace.METHODS)),
            "maxsteps": draw(st.sampled_from([2, 5, 12, 25]))}


def observe(model, histories, touching):
    """{key: set of rays} and {key: values} of a set of histories."""
    flags, values = {}, {}

    def flag(key, r):
        flags.setdefault(key, set()).add(r)

    def value(key, v):
        values.setdefault(key, []).append(v)

    for r, h in enumerate(histories):
        last, event, m = h[-1]
        m = m or {}
        flag(("ends", event.name, m.get("container")), r)
        for k, (ray, e, q) in enumerate(h[1:]):
            q = q or {}
            flag(("has", e.name, None if touching else q.get("hit"), q.get("container"), q.get("adjacent"), q.get("component")), r)
            if k < 4:
                flag(("event", k + 1, e.name), r)
        value("events", len(h))
        kinds = [e.name for _, e, _ in h]
        for kind in ("REFLECT", "TRANSMIT", "ABSORB", "EMIT", "SCATTER"):
            value("number of " + kind, kinds.count(kind))
        value("travelled", last.travelled)
        value("duration", last.duration)
        value("wavelength", last.wavelength)
        for i, a in enumerate("xyz"):
            value("position " + a, last.position[i])
            value("direction " + a, last.direction[i])
        first = h[1][0]
        value("first travelled", first.travelled)
        for i, a in enumerate("xyz"):
            value("first position " + a, first.position[i])
    for name, e in tallies.expected(model, histories).items():
        flags[("recorder", name)] = set(range(e.rays))
        for row in e.rows:
            for p, v in row.items():
                value(("recorder", name, p), v)
    return flags, values, len(histories)


def p_values(a, b):
    """{key: p} for two observations."""
    from scipy.stats import hypergeom

    fa, va, na = a
    fb, vb, nb = b
    out = {}
    for key in set(fa) | set(fb):
        x, y = len(fa.get(key, ())), len(fb.get(key, ()))
        law = hypergeom(na + nb, x + y, nb)
        out[key] = min(1.0, 2 * min(law.cdf(y), law.sf(y - 1)))
    for key in set(va) & set(vb):
        x, y = np.sort(np.asarray(va[key], float)), np.sort(np.asarray(vb[key], float))
        if len(x) < 8 or len(y) < 8:
            continue
        # values that only differ by rounding are the same value
        grid = np.concatenate([x, y])
        span = max(abs(grid[0]), float(np.max(np.abs(grid))), 1e-300)
        x, y = np.round(x / span, 7), np.round(y / span, 7)
        # rounding can still split equal values: look just above and below
        pts = np.unique(np.concatenate([x, y])) + 1.1e-6
        d = np.abs(np.searchsorted(x, pts, "right") / len(x) - np.searchsorted(y, pts, "right") / len(y))
        # a jump at a point mass straddling the grid would be shared by both
        D = float(d.max())
        n = len(x) * len(y) / (len(x) + len(y))
        s = (math.sqrt(n) + 0.12 + 0.11 / math.sqrt(n)) * D
        out[("ks", key)] = min(1.0, 2 * math.exp(-2 * s * s))
    return out


STAGES = [(3000, 110, 1e-3), (8000, 800, 1e-4), (20000, 4000, 1e-7)]


def prop(case):
    spec = case["scene"]
    model = sc.Model(spec)
    suspects = None
    story = {}
    info = None
    for stage, (n_e, n_p, limit) in enumerate(STAGES):
        seed = case["seed"] + 7919 * stage
        engine = list(trace.engine(spec, n_e, seed, maxsteps=case["maxsteps"],
                                   max_events=2 * case["maxsteps"] + 8, emit_method=case["method"]).histories())
        python = trace.python(spec, n_p, seed + 1, maxsteps=case["maxsteps"], emit_method=case["method"])
        a, b = observe(model, engine, case["touching"]), observe(model, python, case["touching"])
        ps = p_values(a, b)
        if info is None:
            mid = sum(0.03 < len(v) / n_e < 0.97 for v in a[0].values())
            info = Info(nontrivial=mid >= 5, evaluations=len(ps),
                        classes=["classes>=5"] * (mid >= 5) + ["re-emission"] * any(
                            k[0] == "has" and k[1] in ("EMIT", "SCATTER") for k in a[0]))
        bad = {k for k, p in ps.items() if p < limit and (suspects is None or k in suspects)}
        for k in bad:
            fa, fb = len(a[0].get(k, ())), len(b[0].get(k, ()))
            story.setdefault(k, []).append("p=%.1e%s" % (
                ps[k], "" if k[0] == "ks" else " (%d of %d engine rays, %d of %d Python rays)" % (fa, n_e, fb, n_p)))
        if not bad:
            return info
        suspects = bad
    k = sorted(suspects, key=repr)[0]
    raise Violation("the tracers differ in %s: %s" % (k, "; ".join(story[k])))


# -------------------------------------------------------------------- names
@st.composite
def names_case(draw, tracer):
    kinds = ("box", "sphere", "cylinder") + (("mesh",) if tracer == "python" else ())
    vivid = draw(st.booleans())
    opt = sc.Options(kinds=kinds, lights_inside=vivid, strong=vivid, max_nodes=5, max_components=3, dense_components=vivid)
    return {"scene": draw(tallies.with_recorders(sc.scene(opt), max_recorders=3)), "seed": draw(gen.seeds),
            "tracer": tracer, "method": draw(st.sampled_from(trace.METHODS)),
            "few": draw(st.integers(1, 2)), "what": draw(st.sampled_from(["components", "components", "nodes", "all"]))}


def renamed(case):
    """The scene with other names, many of them the same."""
    spec = json.loads(json.dumps(case["scene"]))      # no shared parts
    few, what = case["few"], case["what"]
    k = 0
    for i, n in enumerate(spec["nodes"]):
        if what in ("nodes", "all"):
            n["name"] = "node-%d" % (i % few)
        for c in n.get("components", []):
            if what in ("components", "all"):
                c["key"], c["name"] = c["name"], "dye-%d" % (k % few)
                k += 1
    return spec


def names_prop(case):
    """Names are labels: what happens to the rays does not depend on them."""
    other = renamed(case)
    if case["tracer"] == "engine":
        run = lambda s: trace.engine(s, 200, case["seed"], maxsteps=30, max_events=100, emit_method=case["method"]).histories()
    else:
        run = lambda s: trace.python(s, 16, case["seed"], maxsteps=20, emit_method=case["method"], reseed=True)

    def plain(h):
        return [e.name for _, e, _ in h], np.array([list(r.position) + list(r.direction) + [r.wavelength, r.travelled,
                                                    1e10 * r.duration] for r, _, _ in h], float)

    a, b = [plain(h) for h in run(case["scene"])], [plain(h) for h in run(other)]
    require(len(a) == len(b), "%d rays instead of %d with other names", len(b), len(a))
    odd = [k for k, (x, y) in enumerate(zip(a, b))
           if x[0] != y[0] or not np.allclose(x[1], y[1], rtol=1e-7, atol=1e-7)]
    # Rounding, which may depend on where numpy puts its arrays, can decide a borderline
    require(len(odd) <= 1 + 0.005 * len(a), "the fate of %d of %d rays depends on the names of %s, such as that of ray %d: "
            "%s, with other names %s", len(odd), len(a), case["what"], *([odd[0], a[odd[0]][0], b[odd[0]][0]] if odd else [0] * 3))
    n = sum(len(x[0]) for x in a)
    made = {c["name"] for m in case["scene"]["nodes"] for c in m.get("components", [])}
    return Info(nontrivial=len(made) >= 2 or case["what"] == "nodes", evaluations=n, classes=[case["what"]])


PARTS = [
    Part("names", lambda: names_case("engine"), names_prop, quick=160, thorough=8000, shards=8,
         rule="two components, or nodes, of the same name"),
    Part("names-python", lambda: names_case("python"), names_prop, quick=64, thorough=3000, shards=8,
         rule="two components, or nodes, of the same name"),
    Part("outcomes", case, prop, quick=240, thorough=12000, shards=8,
         rule="five or more classes of outcome that are neither rare nor sure"),
]
