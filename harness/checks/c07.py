"""C07: engine runs are reproducible, whatever the workers, logging and bundles."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle, scenes as sc, tallies, trace
from harness.core import Info, Part, require

ID = "C07"
RULE = ("A case is a generated scene with recorders and lights, a seed, worker counts, a logging stride, an "
        "event budget and a bundle size. A reference run logs everything with one worker; other runs must "
        "agree with it bit for bit in what they keep (floating tallies to rounding of the summation order). "
        "Streams of random numbers are compared across rays in scattering media: no value twice, no "
        "correlation between any ray and the next ones at any lag. Evaluations are rays compared. "
        "Non-trivial: the reference run holds random outcomes and 200 or more transitions, or the streams "
        "hold 2000 or more values.  large: up to 300,000 rays at once, sharing no free path, run in several ways.")
ASSUMPTIONS = ["initial rays are reproduced by seeding numpy's global generator, or by lights that emit a "
               "fixed sequence", "sums of floating point tallies may differ by the order of summation (1e-11)"]

ROW = ("kind", "hit", "container", "adjacent", "component", "source", "position", "direction",
       "wavelength", "travelled", "duration", "normal")


def rows(result, j, n=None):
    """The events of recorded ray j, as one array per column."""
    n = int(result.data["counts"][j]) if n is None else n
    base = j * result.max_events
    out = {}
    for k in ROW:
        v = result.data[k][base:base + n]
        out[k] = v
    return out


def same_rows(a, b):
    for k in ROW:
        x, y = a[k], b[k]
        if k == "normal":
            # only surface events have one
            keep = np.isin(a["kind"], SURFACE_KINDS())
            x, y = x[keep], y[keep]
        if x.tobytes() != y.tobytes():
            return k
    return None


def SURFACE_KINDS():
    from pvtrace.light.event import Event

    return [Event.REFLECT.value, Event.TRANSMIT.value]


def same_tallies(a, b, what):
    require(a.compiled.recorder_specs is not None, "no recorders")
    for k in ("rec_distinct", "rec_crossings", "rec_bins"):
        require(np.array_equal(a.data[k], b.data[k]), "%s: %s is %s, the reference has %s",
                what, k, np.asarray(b.data[k]).tolist(), np.asarray(a.data[k]).tolist())
    x, y = np.asarray(a.data["rec_sums"]), np.asarray(b.data["rec_sums"])
    require(np.all(np.abs(x - y) <= 1e-11 * np.abs(x)), "%s: rec_sums is %s, the reference has %s",
            what, y.tolist(), x.tolist())


SEEDS = st.sampled_from([2 ** 31 - 2, 2 ** 31 - 1, 2 ** 32 - 3, 2 ** 32 + 5, 2 ** 53 + 1, 2 ** 63 - 100, 2 ** 63 + 7])


@st.composite
def run_case(draw):
    opt = sc.Options(max_nodes=5, strong=draw(st.booleans()), lights_inside=draw(st.booleans()))
    return {"scene": draw(tallies.with_recorders(sc.scene(opt), max_recorders=4)),
            "seed": draw(st.one_of(gen.seeds, st.integers(0, 3), SEEDS)),
            "rays": draw(st.one_of(st.integers(1, 12), st.integers(13, 300))),
            "workers": draw(st.lists(st.integers(1, 16), min_size=2, max_size=3)),
            "stride": draw(st.one_of(st.integers(0, 9), st.sampled_from([50, 1000]))),
            "max_events": draw(st.integers(4, 40)),
            "maxsteps": draw(st.one_of(st.integers(0, 6), st.integers(10, 60))),
            "method": draw(st.sampled_from(trace.METHODS))}


def run_prop(case):
    n, maxsteps = case["rays"], case["maxsteps"]
    big = 2 * maxsteps + 8

    def go(workers=1, stride=1, events=big):
        return trace.engine(case["scene"], n, case["seed"], workers=workers, maxsteps=maxsteps,
                            max_events=events, record_every=stride, emit_method=case["method"])

    ref = go()
    require(ref.num_rays == n and ref.num_recorded == n, "%d rays traced, %d recorded of %d",
            ref.num_rays, ref.num_recorded, n)
    full = [rows(ref, j) for j in range(n)]
    hs = list(ref.histories())
    require(len(hs) == n, "%d histories of %d rays", len(hs), n)
    again = [1, None] + case["workers"]
    for w in again:
        r = go(workers=w)
        require(np.array_equal(r.data["counts"], ref.data["counts"]),
                "with %s workers the histories have %s events, with 1 %s", w,
                r.data["counts"].tolist(), ref.data["counts"].tolist())
        for j in range(n):
            col = same_rows(full[j], rows(r, j))
            require(col is None, "ray %d: %s differs with %s workers (run again)", j, col, w)
        same_tallies(ref, r, "%s workers" % w)
        require(list(r.sources) == list(ref.sources), "sources differ with %s workers", w)

    # Logging: strides keep the k-th histories, event budgets truncate
    k = case["stride"]
    for w in (1, case["workers"][0]):
        r = go(workers=w, stride=k)
        want = list(range(0, n, k)) if k else []
        what = "record_every=%d of %d rays" % (k, n)
        require(r.num_rays == n, "%s: num_rays is %d", what, r.num_rays)
        require(r.num_recorded == len(want), "%s: num_recorded is %d", what, r.num_recorded)
        require([int(v) for v in r.recorded_indices] == want, "%s: recorded_indices is %s", what,
                r.recorded_indices)
        for j, i in enumerate(want):
            require(r.data["counts"][j] == ref.data["counts"][i], "%s: ray %d has %d events, not %d",
                    what, i, r.data["counts"][j], ref.data["counts"][i])
            col = same_rows(full[i], rows(r, j))
            require(col is None, "%s: %s of ray %d differs", what, col, i)
        kept = list(r.histories())
        require(len(kept) == len(want), "%s: %d histories", what, len(kept))
        for h, i in zip(kept, want):
            require(h[0][0].source == hs[i][0][0].source and len(h) == len(hs[i])
                    and all(tuple(p[0].position) == tuple(q[0].position) and p[1] is q[1]
                            and p[0].source == q[0].source and p[2] == q[2]
                            for p, q in zip(h, hs[i])), "%s: history of ray %d differs", what, i)
        c = r.event_counts()
        seen = {}
        for h in kept:
            for _, e, _ in h:
                seen[e] = seen.get(e, 0) + 1
        require({e: v for e, v in c.items() if v} == seen, "%s: event_counts is %s, the histories have %s",
                what, dict(c), seen)
        same_tallies(ref, r, what)

    m = case["max_events"]
    kill = [e for e in type(hs[0][0][1]) if e.name == "KILL"][0].value
    cut = 0
    r = go(workers=case["workers"][1], events=m)
    for j in range(n):
        have = int(r.data["counts"][j])
        want = int(ref.data["counts"][j])
        what = "max_events=%d: ray %d with %d events" % (m, j, want)
        require(have <= m, "%s is logged with %d", what, have)
        if want < m - 2:
            require(have == want, "%s is logged with %d", what, have)
        if have == want and same_rows(full[j], rows(r, j)) is None:
            continue
        cut += 1
        require(have >= m - 2 and rows(r, j)["kind"][-1] == kill,
                "%s is logged with %d, without a KILL at the end", what, have)
        a = {c: full[j][c][:have - 1] for c in ROW}
        col = same_rows(a, {c: v[:have - 1] for c, v in rows(r, j).items()})
        require(col is None, "%s: %s of what is logged differs", what, col)
    same_tallies(ref, r, "max_events=%d" % m)
    total = int(ref.data["counts"].sum()) - n
    random = sum(len({(p["kind"].tobytes(), p["position"].tobytes()) for p in full}) > 1 for _ in (1,))
    return Info(nontrivial=bool(random) and total >= 200, evaluations=6 * n,
                classes=["truncated"] * bool(cut) + ["stride>1"] * (k > 1) + ["tallied"] * bool(
                    ref.data["rec_distinct"].sum()))


# ------------------------------------------------------------------- bundles
class Sequence:
    """A custom light property: the same sequence whenever it starts anew."""

    def __init__(self, make):
        self.make = make
        self.k = 0

    def __call__(self):
        self.k += 1
        return self.make(self.k)


def fixed_lights(scene):
    for i, node in enumerate(scene.light_nodes):
        a = 0.754877666 + 0.01 * i
        spot = lambda k, a=a: tuple(0.02 * (((k * a * q) % 1.0) - 0.5) for q in (1.0, 1.7, 2.3))

        def aim(k, a=a):
            z = 2 * ((k * a) % 1.0) - 1
            phi = 2 * math.pi * ((k * 0.569840296) % 1.0)
            s = math.sqrt(1 - z * z)
            return (s * math.cos(phi), s * math.sin(phi), z)

        node.light.position = Sequence(spot)
        node.light.direction = Sequence(aim)
        node.light.wavelength = Sequence(lambda k, a=a: 350.0 + 500 * ((k * a * 3) % 1.0))
    return scene


@st.composite
def bundle_case(draw):
    opt = sc.Options(max_nodes=4, strong=draw(st.booleans()), lights_inside=draw(st.booleans()))
    n = draw(st.one_of(st.integers(1, 12), st.integers(13, 200)))
    return {"scene": draw(tallies.with_recorders(sc.scene(opt), max_recorders=4)),
            "seed": draw(st.one_of(gen.seeds, SEEDS)), "rays": n,
            "bundles": draw(st.lists(st.one_of(st.integers(1, 9), st.integers(1, n), st.just(n),
                                               st.just(n + 5)), min_size=1, max_size=3)),
            "workers": draw(st.integers(1, 8)), "every": draw(st.sampled_from([1, 1, 1, 2, 3, 7, 50, 0])),
            "method": draw(st.sampled_from(trace.METHODS))}


def bundle_prop(case):
    from pvtrace.engine import simulate, simulate_stream

    n = case["rays"]
    kw = dict(seed=case["seed"], maxsteps=40, max_events=96, emit_method=case["method"])
    ref = simulate(fixed_lights(sc.build(case["scene"])), n, workers=1, **kw)
    full = [rows(ref, j) for j in range(n)]
    n_bundles = 0
    for b in case["bundles"]:
        b = max(b, (n + 39) // 40)      # at most 40 bundles
        what = "bundles of %d of %d rays" % (b, n)
        scene = fixed_lights(sc.build(case["scene"]))
        done = 0
        sums = {k: 0 for k in ("rec_distinct", "rec_crossings", "rec_bins", "rec_sums")}
        for r, traced in simulate_stream(scene, n, bundle=b, workers=case["workers"],
                                         record_every=case.get("every", 1), **kw):
            size = min(b, n - done)
            require(r.num_rays == size and traced == done + size,
                    "%s: a bundle of %d after %d reports %d traced", what, r.num_rays, done, traced)
            every = case.get("every", 1)
            kept = [i for i in range(done, done + size) if every and i % every == 0]
            require([int(i) + done for i in r.recorded_indices] == kept and r.num_recorded == len(kept),
                    "%s: of every %d. ray after %d, %d histories of rays %s are kept, should be %s", what, every, done,
                    r.num_recorded, [int(i) + done for i in r.recorded_indices], kept)
            for j in range(size):
                require(r.sources[j] == ref.sources[done + j], "%s: ray %d comes from %s, in a single run from %s",
                        what, done + j, r.sources[j], ref.sources[done + j])
            for j, i in enumerate(kept):
                col = "number of events" if r.data["counts"][j] != ref.data["counts"][i] else same_rows(
                    full[i], rows(r, j))
                require(col is None, "%s: %s of ray %d differs from the single run", what, col, i)
            for k in sums:
                sums[k] = sums[k] + r.data[k]
            done += size
            n_bundles += 1
        require(done == n, "%s: %d were traced", what, done)
        for k in ("rec_distinct", "rec_crossings", "rec_bins"):
            require(np.array_equal(sums[k], ref.data[k]), "%s: %s sums to %s, a single run has %s", what, k,
                    np.asarray(sums[k]).tolist(), np.asarray(ref.data[k]).tolist())
        x, y = np.asarray(ref.data["rec_sums"]), np.asarray(sums["rec_sums"])
        require(np.all(np.abs(x - y) <= 1e-11 * np.abs(x)), "%s: rec_sums sums to %s, a single run has %s",
                what, y.tolist(), x.tolist())
    return Info(nontrivial=n_bundles > len(case["bundles"]) and int(ref.data["counts"].sum()) - n >= 200,
                evaluations=n * len(case["bundles"]),
                classes=["tallied"] * bool(ref.data["rec_distinct"].sum())
                + ["lights: %d" % len(set(ref.sources))])


# ------------------------------------------------------------ random streams
@st.composite
def stream_case(draw):
    return {"seed": draw(st.one_of(gen.seeds, st.integers(0, 10))),
            "qy": draw(st.sampled_from([1.0, 1.0, 0.9])),
            "kind": draw(st.sampled_from(["scatterer", "luminophore"])),
            "phase": draw(st.sampled_from([None, {"hg": 0.6}, {"cone": 0.5}])),
            "rays": draw(st.sampled_from([300, 1000, 3000])), "steps": draw(st.integers(2, 8)),
            "stride": draw(st.sampled_from([1, 1, 2, 1000, 2 ** 20]))}


def stream_spec(case):
    comp = {"type": case["kind"], "name": "c", "coef": 1.0, "qy": case["qy"], "phase": case["phase"]}
    if case["kind"] == "luminophore":
        comp["emission"] = {"x": [300.0, 1000.0], "y": [1.0, 1.0]}
    solid = {"name": "solid", "parent": 0, "location": [0, 0, 0], "rotations": [],
             "shape": {"type": "sphere", "radius": 400.0}, "n": 1.0, "surface": "fresnel", "components": [comp]}
    world = {"name": "world", "parent": None, "location": [0, 0, 0], "rotations": [],
             "shape": {"type": "sphere", "radius": 500.0}, "n": 1.0, "surface": "fresnel", "components": []}
    light = {"name": "L", "parent": 1, "location": [0, 0, 0], "rotations": [], "shape": None, "components": [],
             "light": {"name": "l", "wavelength": 500.0, "position": None, "direction": None}}
    return {"nodes": [world, solid, light]}


def stream_prop(case):
    spec = stream_spec(case)
    n = case["rays"]

    def run(stage, factor):
        # Pieces of the sequence of rays: seeds are consecutive within a run,
        # and runs with nearby seeds share the rest of their streams
        seed = (case["seed"] + 7919 * stage * case["stride"]) % (2 ** 31 - 1)
        hs = list(trace.engine(spec, n * factor, seed, maxsteps=case["steps"],
                               max_events=2 * case["steps"] + 8, emit_method="full").histories())
        U = np.full((len(hs), case["steps"]), np.nan)
        for i, h in enumerate(hs):
            k = 0
            for a, b in zip(h[:-1], h[1:]):
                if b[1].name == "ABSORB" and k < case["steps"]:
                    U[i, k] = -math.expm1(-(b[0].travelled - a[0].travelled))
                    k += 1
        flat = U[np.isfinite(U)]
        values, counts = np.unique(flat, return_counts=True)
        # depths carry rounding of the position they end at; repeats by chance are rare
        repeated = int((counts > 1).sum())
        require(repeated <= 3 + 1e-3 * len(flat), "%d of %d free paths appear twice, such as %r: rays share "
                "random numbers", repeated, len(flat), values[counts > 1][:1])
        obs = oracle.Observations()
        obs.uniform(("free path",), list(flat))
        out = []
        V = math.sqrt(12) * (U - 0.5)
        for lag in (1, 2, 3, 7):
            for d in range(-2, 3):
                a = V[:-lag]
                b = V[lag:]
                if d >= 0:
                    a, b = a[:, :a.shape[1] - d] if d else a, b[:, d:]
                else:
                    a, b = a[:, -d:], b[:, :d]
                p = (a * b)
                p = p[np.isfinite(p)]
                if len(p) >= 50:
                    out.append((("rays %d apart, %d draws apart" % (lag, d),), float(p.sum() / math.sqrt(len(p)))))
        return obs, out, len(flat)

    obs, out, size = run(0, 1)
    depth = []
    for seed in (case["seed"], (case["seed"] + n + 12345) % (2 ** 31 - 1)):
        hs = trace.engine(spec, 50, seed, maxsteps=1, max_events=16, emit_method="full").histories()
        depth.append({round(h[1][0].travelled, 9) for h in hs})
    require(len(depth[0] & depth[1]) <= 1, "two different seeds give the same free paths: %s",
            sorted(depth[0] & depth[1])[:3])
    bad = {k: z for k, z in out if abs(z) > 6}
    sus = {k: t for k, t in obs.suspicious(6.0, 3.3)}
    if bad or sus:
        obs2, out2, _ = run(1, 4)
        for k, z in out2:
            require(k not in bad or abs(z) < 5.5, "random numbers of %s are correlated: z=%.1f, then %.1f",
                    k[0], bad.get(k, 0), z)
        for k, t in obs2.suspicious(5.5, 3.0):
            require(k not in sus, "%s does not follow its law: %s, then %s", k, sus.get(k), t)
    return Info(nontrivial=size >= 2000, evaluations=n, classes=["values>=2000"] * (size >= 2000))


# ------------------------------------------------------------- very many rays
@st.composite
def large_case(draw):
    case = draw(stream_case())
    n = draw(st.sampled_from([33000, 66000, 70001, 140000, 300000]))
    return {**case, "seed": draw(st.one_of(gen.seeds, st.integers(0, 3), SEEDS)), "rays": n,
            "workers": draw(st.integers(1, 8)), "stride": draw(st.sampled_from([1, 2, 997, 65536])),
            "bundle": draw(st.sampled_from([n // 2, n // 3 + 1, 32768, 65536, 50000]))}


def large_prop(case):
    """No two of very many rays share their random numbers, and any way of running them gives the same."""
    from pvtrace.engine import simulate, simulate_stream

    n = case["rays"]
    spec = stream_spec(case)
    # a coefficient for which hardly any ray leaves, and a record of each
    spec["nodes"][1]["recorders"] = [{"name": "r-" + e, "event": e, "histograms": [
        {"prop": p, "range": [-2.0, 3.0, 17], "prop_b": "z", "range_b": [-2.0, 1.5, 5]}]}
        for e, p in (("killed", "x"), ("lost", "y"))]
    kw = dict(seed=case["seed"], maxsteps=2, max_events=4, emit_method="full")
    scene = sc.build(spec)
    ref = simulate(scene, n, workers=1, **kw)
    kind = np.asarray(ref.data["kind"]).reshape(n, 4)
    depth = np.asarray(ref.data["travelled"]).reshape(n, 4)[:, 1]
    absorbed = np.asarray([e.name for e in event_list()])[kind[:, 1]] == "ABSORB"
    values, counts = np.unique(depth[absorbed], return_counts=True)
    require(int((counts > 1).sum()) <= 3, "of %d rays %d share their free path with another, such as rays %s", n,
            int(counts[counts > 1].sum()),
            np.flatnonzero(depth == values[counts > 1][0]).tolist()[:3] if (counts > 1).any() else None)
    k = case["stride"]
    r = simulate(scene, n, workers=case["workers"], record_every=k, **kw)
    same_tallies(ref, r, "%d rays, %d workers" % (n, case["workers"]))
    require([int(i) for i in r.recorded_indices] == list(range(0, n, k)), "recorded_indices of every %d", k)
    for what, run, off in [("record_every=%d" % k, r, 0)]:
        compare_kept(ref, run, np.arange(0, n, k), what)
    sums = {key: 0 for key in ("rec_distinct", "rec_crossings", "rec_bins")}
    done = 0
    for run, traced in simulate_stream(scene, n, bundle=case["bundle"], workers=case["workers"], **kw):
        compare_kept(ref, run, np.arange(done, traced), "bundles of %d of %d rays" % (case["bundle"], n))
        for key in sums:
            sums[key] = sums[key] + run.data[key]
        done = traced
    require(done == n, "%d of %d rays are streamed", done, n)
    for key in sums:
        require(np.array_equal(sums[key], ref.data[key]), "bundles of %d of %d rays: %s differs", case["bundle"], n, key)
    return Info(nontrivial=len(values) >= 30000, evaluations=3 * n, classes=["%d rays" % n])


def event_list():
    from pvtrace.light.event import Event

    return sorted(Event, key=lambda e: e.value)


def compare_kept(ref, run, indices, what):
    have = len(indices)
    require(run.num_recorded == have, "%s: %d histories, not %d", what, run.num_recorded, have)
    require(np.array_equal(run.data["counts"], ref.data["counts"][indices]), "%s: numbers of events differ", what)
    full = np.arange(run.max_events) < np.asarray(run.data["counts"])[:, None]
    for col in ROW:
        if col == "normal":
            continue
        a = np.asarray(ref.data[col]).reshape(ref.num_recorded, ref.max_events, -1)[indices][full]
        b = np.asarray(run.data[col]).reshape(have, run.max_events, -1)[full]
        if a.tobytes() != b.tobytes():
            first = np.flatnonzero((a != b).any(axis=1))[0]
            require(False, "%s: %s of ray %d differs", what, col, int(indices[np.nonzero(full)[0][first]]))


PARTS = [
    Part("runs", run_case, run_prop, quick=560, thorough=30000, shards=8,
         rule="random outcomes and 200 or more transitions"),
    Part("bundles", bundle_case, bundle_prop, quick=480, thorough=20000, shards=8,
         rule="several bundles and 200 or more transitions"),
    Part("streams", stream_case, stream_prop, quick=120, thorough=6000, shards=8,
         rule="2000 or more values"),
    Part("large", large_case, large_prop, quick=24, thorough=800, shards=8, rule="30000 or more distinct values"),
]
