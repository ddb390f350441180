"""C19: the LSC device builds the scene it is asked for and counts its rays."""
import contextlib
import functools
import io
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import oracle, scenes as sc
from harness.core import Info, Part, Violation, require
from harness.gen import axis_angle, lognum, num, seeds

ID = "C19"
RULE = ("A case is a device (size, indices, components, lights, solar cells, mirrors, wavelength range) and a sequence of "
        "simulations of it, with queries of the results after each. The histories traced are recorded and decided by the "
        "history oracle on a model of the scene the device describes; the results are compared with those histories. "
        "Evaluations are transitions decided and results compared. Non-trivial: rays left through at least two facets and "
        "the device has a component, a cell or a mirror.")
ASSUMPTIONS = ["histories are read where the tracer of single photons (photon_tracer.step_forward) yields them",
               "near is the facet at negative y, as for the solar cells; a facet counts a ray if the last surface event "
               "before the ray leaves the scene (or the first event, for entering rays) is on it",
               "an absorbed ray is lost by the event called absorb"]
FACETS = ["left", "right", "near", "far", "top", "bottom"]
SIDES = FACETS[:4]
NORMALS = {"left": (-1, 0, 0), "right": (1, 0, 0), "near": (0, -1, 0), "far": (0, 1, 0), "top": (0, 0, 1), "bottom": (0, 0, -1)}
MIRROR = "Air Gap Mirror"


@st.composite
def device(draw, rays):
    size = [draw(lognum(0.3, 6)), draw(lognum(0.3, 6)), draw(lognum(0.1, 2))]
    c = {"size": size, "n0": draw(st.sampled_from([1.0, 1.0, None, 1.2])), "n1": draw(st.one_of(num(1.3, 2.0), st.sampled_from([1.5, None]))),
         "range": draw(st.sampled_from([None, None, [350.0, 950.0, 1.0], [400, 801, 1], [450.0, 900.0, 2.5]])), "seed": draw(seeds)}
    c["components"] = []
    for k in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        x = draw(sc.component("c%d" % k, kinds=("absorber", "scatterer", "luminophore", "luminophore")))
        x.pop("tau_rad", None)
        x.pop("tau_nr", None)
        if x["type"] == "luminophore":
            x.setdefault("qy", 1.0)
        elif x["type"] == "scatterer":
            x["qy"] = 1.0
        c["components"].append(x)
    c["cells"] = draw(st.lists(st.lists(st.sampled_from(SIDES), max_size=4), max_size=2))
    c["mirror"] = draw(st.sampled_from([False, False, True]))
    c["gap"] = draw(st.sampled_from([None, None, "specular", "lambertian"]))
    c["lights"] = []
    for k in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        c["lights"].append(draw(a_light("L%d" % k, size, c["gap"], c["range"])))
    trap = rays > 1 and draw(st.integers(0, 9)) == 0
    if trap:        # rays which never get out
        L = draw(a_light("L0", size, c["gap"], c["range"]))
        L.update(location=[0.1 * s for s in size], direction="isotropic", position=None)
        clear = {"type": "absorber", "name": "clear", "coef": 0.0}
        dense = dict(draw(sc.component("dense", kinds=("luminophore",))), coef=2000 / min(size), qy=1.0)
        dense.pop("tau_rad", None)
        dense.pop("tau_nr", None)
        c.update(components=[draw(st.sampled_from([clear, dense]))], lights=[L], cells=draw(st.sampled_from([[], [], [["left"]]])))
    rays = 3 if trap else rays
    c["runs"] = draw(st.lists(st.fixed_dictionaries({
        "n": st.integers(1, rays), "method": st.sampled_from(["kT", "redshift", "full", None]), "progress": st.booleans(),
        "look": st.sampled_from(["counts", "summary", "both", "none"])}), min_size=1, max_size=3))
    names = [x["name"] for x in c["components"] + c["lights"]]
    source = st.one_of(st.just("all"), st.sampled_from(names) if names else st.just("all"),
                       st.lists(st.sampled_from(names), max_size=4) if names else st.just("all"))
    c["queries"] = draw(st.lists(st.fixed_dictionaries({
        "facets": st.lists(st.sampled_from(FACETS), max_size=4, unique=True),
        "kind": st.sampled_from(["first", "last", "last", None]), "source": source, "container": st.sampled_from(["set", "list", "tuple"]),
        "events": st.one_of(st.none(), st.none(), st.lists(st.sampled_from(
            ["absorb", "transmit", "reflect", "kill", "exit", "generate"]), min_size=1, max_size=3, unique=True))}), min_size=1, max_size=5))
    c["bad"] = draw(st.sampled_from(["", "", "kind", "source", "event", "facets", "cell", "cells", "early"]))
    return c


@st.composite
def a_light(draw, name, size, gap, span):
    L = draw(sc.light(name, 1.0))
    lo, hi = (span or (400, 800, 1))[:2]
    L["wavelength"] = draw(st.one_of(st.none(), num(lo + 1, hi - 5)))
    l, w, d = size
    where = draw(st.sampled_from(["top", "top", "inside"] if gap == "lambertian" else ["top", "top", "top", "inside", "inside", "bottom"] + SIDES))
    at = [draw(num(-0.45, 0.45)) * s for s in size]
    target = [draw(num(-0.45, 0.45)) * s for s in size]
    if where == "inside":
        spread = 0.02 * min(size)
    else:
        h = draw(lognum(0.02, 15)) * min(size)
        spread = 0.4 * h
        k = "xyz".index({"left": "x", "right": "x", "near": "y", "far": "y", "top": "z", "bottom": "z"}[where])
        sign = sum(NORMALS[where])
        at[k] = sign * (0.5 * size[k] + h)
        if where == "bottom":
            at[2] -= 0.4 * d
        if gap == "lambertian":
            spread = min(spread, 0.05 * min(l, w))
    p = L["position"]
    if p:
        key, v = next(iter(p.items()))
        v = v * spread / 2 if key == "circle" else [x * spread / 2 for x in v]
        L["position"] = {key: v}
    L["location"] = at
    if where == "inside" and draw(st.booleans()):
        a = draw(axis_angle())
        L["rotation"] = [a["angle"], a["axis"]] if isinstance(a, dict) else list(a)
    elif draw(st.integers(0, 5)):
        v = np.subtract(target, at)
        n = np.linalg.norm(v)
        L["rotation"] = sc.aim((v / n).tolist())[0] if n > 1e-6 else None
    else:
        L["rotation"] = None
    return L


# ------------------------------------------------------------------- the model
def model_of(c):
    """Scene spec the device describes."""
    l, w, d = c["size"]
    n0, n1 = c["n0"] or 1.0, c["n1"] or 1.5
    comps = c["components"] or default_components(c)
    box = lambda name, size, n, loc, components, parent: {
        "name": name, "parent": parent, "location": loc, "rotations": [], "shape": {"type": "box", "size": size}, "n": n,
        "surface": "fresnel", "components": components}
    nodes = [box("World", [100 * l, 100 * w, 100 * d], n0, [0.0] * 3, [], None), box("LSC", [l, w, d], n1, [0.0] * 3, comps, 0)]
    if c["gap"]:
        t = 0.25 * d
        nodes.append(box(MIRROR, [l, w, t], n0, [0.0, 0.0, -(0.5 * d + t)], [], 0))
    return sc.Model({"nodes": nodes})


def default_components(c):
    from pvtrace.data import lumogen_f_red_305 as dye

    x = np.arange(*c["range"]) if c["range"] else np.arange(400, 800)
    y = np.asarray(dye.absorption(x), float) * 10.0
    e = np.asarray(dye.emission(x), float)
    x = x.astype(float)
    return [{"type": "luminophore", "name": "Lumogen F Red 305", "coef": {"x": x.tolist(), "y": y.tolist()}, "qy": 1.0, "phase": None,
             "emission": {"x": x.tolist(), "y": e.tolist()}},
            {"type": "absorber", "name": "Background", "coef": 0.1}]


def default_light(c):
    return {"name": "Light", "location": [0.0, 0.0, 5 * c["size"][2]], "rotation": [math.pi, [1.0, 0.0, 0.0]],
            "wavelength": None, "position": None, "direction": {"cone": math.radians(20)}}


# ------------------------------------------------------------------ the device
class Spy:
    """Remembers what a callable of a light returned."""

    def __init__(self, f):
        self.f, self.log = f, []

    def __call__(self):
        self.log.append(self.f())
        return self.log[-1]


class Device:
    def __init__(self, c):
        from pvtrace.device.lsc import LSC

        self.c = c
        kw = {k: c[k] for k in ("n0", "n1") if c[k] is not None}
        if c["range"]:
            kw["wavelength_range"] = np.arange(*c["range"])
        self.lsc = lsc = LSC(tuple(c["size"]), **kw)
        for x in c["components"]:
            coef = x["coef"]
            coef = np.column_stack((coef["x"], coef["y"])) if isinstance(coef, dict) else float(coef)
            if x["type"] == "absorber":
                lsc.add_absorber(x["name"], coef)
            elif x["type"] == "scatterer":
                lsc.add_scatterer(x["name"], coef, phase_function=sc.build_phase(x["phase"]))
            else:
                e = x["emission"]
                lsc.add_luminophore(x["name"], coef, np.column_stack((e["x"], e["y"])), x["qy"],
                                    phase_function=sc.build_phase(x["phase"]))
        self.spies = {}
        for L in c["lights"]:
            built = sc.build_light(dict(L))
            spies = self.spies[L["name"]] = {k: Spy(getattr(built, k)) for k in ("wavelength", "position", "direction")
                                             if L[k] is not None}
            kw = {"rotation": None if L["rotation"] is None else (L["rotation"][0], tuple(L["rotation"][1]))}
            lsc.add_light(L["name"], tuple(L["location"]), **kw, **spies)
        self.cells = set()
        for cells in c["cells"]:
            lsc.add_solar_cell(set(cells))
            self.cells |= set(cells)
        if c["mirror"]:
            lsc.add_back_surface_mirror()
        if c["gap"]:
            lsc.add_air_gap_mirror(**({"lambertian": True} if c["gap"] == "lambertian" else {}))
        self.histories = []
        self.scene = None

    def simulate(self, n, method=None, progress=None):
        from pvtrace.algorithm import photon_tracer

        original = photon_tracer.step_forward

        @functools.wraps(original)
        def recording(scene, ray, *args, **kwargs):
            self.scene = scene
            h = []
            self.histories.append(h)
            for item in original(scene, ray, *args, **kwargs):
                h.append(item)
                yield item

        kw = {} if method is None else {"emit_method": method}
        if progress is not None:
            kw["progress"] = progress.append
        photon_tracer.step_forward = recording
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.lsc.simulate(n, **kw)
        finally:
            photon_tracer.step_forward = original

    def surface_at(self, name, normal):
        if name == MIRROR:
            return "lambertian" if self.c["gap"] == "lambertian" else {"constant": 1.0}
        for facet, n in NORMALS.items():
            if np.dot(n, normal) > 0.999:
                if facet == "bottom" and self.c["mirror"]:
                    return {"constant": 1.0}
                if facet in self.cells:
                    return {"constant": 0.0}
        return None


def check_scene(dev, model):
    from anytree import PreOrderIter

    nodes = list(PreOrderIter(dev.scene.root))
    solids = sorted(n.name for n in nodes if n.geometry is not None)
    require(solids == sorted(model.names), "the scene has solids %s, should have %s", solids, model.names)
    wanted = dev.c["lights"] or [default_light(dev.c)]
    lights = [n.name for n in nodes if n.light is not None]
    require(sorted(lights) == sorted(L["name"] for L in wanted), "the scene has lights %s", lights)
    require(len(nodes) == len(solids) + len(lights), "the scene has further nodes: %s", [n.name for n in nodes])
    for n in nodes:
        if n.geometry is not None:
            spec = model.spec["nodes"][model.index[n.name]]
            m = n.geometry.material
            require(sorted(x.name for x in m.components) == sorted(x["name"] for x in spec["components"]), "%s has components %s, should have %s",
                    n.name, [x.name for x in m.components], [x["name"] for x in spec["components"]])
    return wanted


def check_start(dev, wanted, first, method_free=True):
    """Every history starts as the lights' callables said, in turn."""
    used = {L["name"]: 0 for L in wanted}
    n = 0
    for k, h in enumerate(dev.histories):
        ray = h[0][0]
        name = ray.source
        require(name in used, "ray %d comes from %r", k, name)
        L = next(L for L in wanted if L["name"] == name)
        q = used[name]
        used[name] += 1
        spies = dev.spies.get(name, {})
        v = {key: spies[key].log[q] if key in spies else default for key, default in
             (("wavelength", 555.0), ("position", (0.0, 0.0, 0.0)), ("direction", (0.0, 0.0, 1.0)))}
        R = np.eye(3)
        if L["rotation"] is not None:
            R = sc.geom.rodrigues(*L["rotation"])[:3, :3]
        want = R @ np.asarray(v["position"], float) + L["location"]
        require(np.abs(want - ray.position).max() <= 1e-9 * (1 + np.abs(want).max()), "ray %d starts at %s, light %r at %s emits from %s", k,
                ray.position, name, L["location"], want.tolist())
        if dev.c["lights"]:
            d = R @ np.asarray(v["direction"], float)
            require(np.abs(d - ray.direction).max() <= 1e-9, "ray %d starts along %s, light %r emits along %s", k, ray.direction, name, d.tolist())
        else:
            require(-ray.direction[2] >= math.cos(math.radians(20)) - 1e-9, "ray %d of the default light starts along %s", k, ray.direction)
        require(ray.wavelength == v["wavelength"], "ray %d has %r nm, light %r emits %r", k, ray.wavelength, name, v["wavelength"])
        n += 1
    share = [used[L["name"]] for L in wanted]
    require(max(share) - min(share) <= len(first), "lights emit %s rays in %d simulations", used, len(first))
    return n


# ------------------------------------------------------------------ the results
def facet_of(p, size, event):
    """Facet a surface event is on; None for none, "?" where that is not clear."""
    if event not in ("reflect", "transmit"):
        return None
    half = np.asarray(size) / 2
    p = np.asarray(p, float)
    near = np.abs(np.abs(p) - half) <= 2e-5 * half + 1e-9
    if np.any(np.abs(p) > half + 2e-5 * half + 1e-9) or not near.any():
        return None
    if near.sum() > 1:
        return "?"
    k = int(np.argmax(near))
    return [("left", "right"), ("near", "far"), ("bottom", "top")][k][int(p[k] > 0)]


def rows_of(dev):
    rows = []
    size = dev.c["size"]
    for h in dev.histories:
        names = [e.name.lower() for _, e, _ in h]
        ray = h[1][0]
        rows.append(("first", ray.wavelength, ray.source, names[1], facet_of(ray.position, size, names[1])))
        if names[-1] == "exit":
            ray, event = h[-2][0], names[-2]
        else:
            ray, event = h[-1][0], {"nonradiative": "absorb"}.get(names[-1], names[-1])
        rows.append(("last", ray.wavelength, ray.source, event, facet_of(ray.position, size, event)))
    return rows


def expect(rows, kind, sources, facets, events):
    """Wavelengths which must and which may be in the answer."""
    must, may = [], []
    for k, w, s, e, f in rows:
        if (kind is None or k == kind) and (sources is None or s in sources) and (events is None or e in events):
            if not facets or f in facets:
                must.append(w)
            elif f == "?":
                may.append(w)
    return sorted(must), sorted(may)


def check_answer(got, rows, kind, sources, facets, events, what):
    must, may = expect(rows, kind, sources, facets, events)
    got = sorted(float(x) for x in got)
    if got == must:
        return
    rest = list(got)
    for w in must:
        require(w in rest, "%s has %d rays, should have %d; %r nm is missing", what, len(got), len(must), w)
        rest.remove(w)
    for w in rest:
        require(w in may, "%s has %d rays, should have %d; %r nm should not be there", what, len(got), len(must), w)
        may.remove(w)


def check_results(dev, rows, wanted, model, look, evaluations):
    c = dev.c
    comps = {x["name"] for x in c["components"] or default_components(c)}
    lights = {L["name"] for L in wanted}
    require(dev.lsc.component_names() == comps, "component names are %s, should be %s", dev.lsc.component_names(), comps)
    require(dev.lsc.light_names() == lights, "light names are %s, should be %s", dev.lsc.light_names(), lights)
    table = {}
    for title, kind, source in (("Solar In", "first", lights), ("Solar Out", "last", lights),
                                ("Luminescent In", "first", comps), ("Luminescent Out", "last", comps)):
        table[title] = {f: tuple(map(len, expect(rows, kind, source, {f}, None))) for f in FACETS}
    if look in ("counts", "both"):
        t = dev.lsc.counts()
        for title, column in table.items():
            for f, (must, may) in column.items():
                n = int(t[title][f])
                require(must <= n <= must + may, "counts: %s of %s is %d, should be %d", title, f, n, must)
        evaluations += 1
    unsure = any(r[4] == "?" for r in rows)
    if look in ("summary", "both") and not unsure:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = dev.lsc.summary()
        n = {title: {f: v[0] for f, v in column.items()} for title, column in table.items()}
        collected = sum(n["Luminescent Out"][f] for f in dev.cells)
        escaped = sum(n["Luminescent Out"][f] for f in FACETS if f not in dev.cells)
        incident = sum(n["Solar In"].values())
        lost = sum(k == "last" and e == "absorb" for k, _, _, e, _ in rows)
        l, w, d = c["size"]
        Cg = l * w / (2 * l * d + 2 * w * d)
        n1 = c["n1"] or 1.5
        same(s["Incident"], incident, "incident")
        same(s["Geometric Concentration"], Cg, "geometric concentration")
        same(s["Refractive Index"], n1, "refractive index")
        same(s["Waveguide Efficiency (Thermodynamic Prediction)"], n1 ** 2 / (Cg + n1 ** 2), "thermodynamic waveguide efficiency")
        if incident:
            same(s["Optical Efficiency"], collected / incident, "optical efficiency")
            same(s["Non-radiative Loss (fraction):"], lost / incident, "fraction lost")
        if collected + escaped:
            same(s["Waveguide Efficiency"], collected / (collected + escaped), "waveguide efficiency")
        require(set(s["Cell Surfaces"]) == dev.cells and set(s["Components"]) == comps and set(s["Lights"]) == lights,
                "summary: cells %s, components %s, lights %s", s["Cell Surfaces"], s["Components"], s["Lights"])
        evaluations += 1
    return evaluations


def same(got, want, what):
    require(abs(float(got) - want) <= 1e-12 * (1 + abs(want)), "summary: %s is %r, should be %r", what, got, want)


def check_bad(dev, bad):
    """What is not there to be asked for is refused."""
    lsc = dev.lsc
    f = {"kind": lambda: lsc.spectrum(kind="middle"), "source": lambda: lsc.spectrum(source={"no such source"}),
         "event": lambda: lsc.spectrum(events={"no such event"}), "facets": lambda: lsc.spectrum(facets="left"),
         "cell": lambda: lsc.add_solar_cell("left"), "cells": lambda: lsc.add_solar_cell({"left", "top"}),
         "early": lambda: lsc.spectrum()}[bad]
    try:
        f()
    except ValueError:
        return
    raise Violation("no ValueError for bad %s" % bad)


def device_prop(c):
    dev = Device(c)
    model = model_of(c)
    if c["bad"] in ("early", "cell", "cells"):
        check_bad(dev, c["bad"])
    np.random.seed(c["seed"] % 2 ** 32)
    evaluations = 0
    rows = []
    done = 0
    classes = set()
    for k, run in enumerate(c["runs"]):
        progress = [] if run["progress"] else None
        dev.simulate(run["n"], run["method"], progress)
        require(len(dev.histories) == done + run["n"], "simulation %d traces %d rays, asked for %d", k, len(dev.histories) - done, run["n"])
        done += run["n"]
        require(progress is None or progress == list(range(1, run["n"] + 1)), "progress of %d rays is reported as %s", run["n"], progress)
        wanted = check_scene(dev, model)
        rows = rows_of(dev)
        evaluations = check_results(dev, rows, wanted, model, run["look"], evaluations)
    check_start(dev, wanted, c["runs"])
    for q in c["queries"]:
        kw = {"facets": {"set": set, "list": list, "tuple": tuple}[q["container"]](q["facets"]), "kind": q["kind"],
              "source": q["source"] if isinstance(q["source"], str) else set(q["source"]), "events": q["events"] and set(q["events"])}
        got = dev.lsc.spectrum(**kw)
        sources = None if q["source"] == "all" else {q["source"]} if isinstance(q["source"], str) else set(q["source"])
        check_answer(got, rows, q["kind"], sources, set(q["facets"]), kw["events"], "spectrum(%s)" % kw)
        evaluations += 1
    for source, kind in (("all", "last"), ("all", "first")):
        check_answer(dev.lsc.spectrum(kind=kind, source=source), rows, kind, None, set(), None, "spectrum(kind=%r)" % kind)
    require(len(dev.lsc.spectrum(kind=None)) == 2 * done, "results have %d rows for %d rays", len(dev.lsc.spectrum(kind=None)), done)
    if c["bad"] in ("kind", "source", "event", "facets"):
        check_bad(dev, c["bad"])
    used = physics(dev, model, None)[0]
    facets = {r[4] for r in rows if r[0] == "last"} - {None}
    classes |= {r[3] for r in rows} | {"facet " + f for f in facets}
    classes |= {k for k in ("mirror", "gap", "components", "lights") if c[k]} | ({"cells"} if dev.cells else set())
    return Info(len(facets) >= 2 and bool(c["components"] or dev.cells or c["mirror"] or c["gap"]), sorted(classes), evaluations + used)


def physics(dev, model, obs):
    """The histories are those of the scene."""
    oracle.check_grammar(model, dev.histories)
    flat = oracle.Flat(dev.histories)
    oracle.check_book(model, flat)
    steps = oracle.Steps(model, flat)
    used, skipped, kinds = oracle.check_exact(model, flat, steps)
    count = oracle.check_surfaces(model, flat, steps, obs, surface_at=dev.surface_at)
    if obs is not None:
        oracle.observe_volume(model, flat, steps, obs)
    return used, flat, count


@st.composite
def law_case(draw):
    c = draw(device(1))
    if not c["components"] and not any(c["cells"]):
        c["cells"] = [SIDES]
    return c


def law_prop(c):
    total = 0

    def run(stage, factor):
        nonlocal total
        dev = Device(c)
        np.random.seed((c["seed"] + 7919 * stage) % 2 ** 32)
        dev.simulate(60 * factor, "full")
        obs = oracle.Observations()
        used, flat, count = physics(dev, model_of(c), obs)
        oracle.observe_emission(model_of(c), flat, obs, "full")
        total += used
        return obs

    obs = oracle.confirmed(run)
    keys = obs.counts()
    return Info(len(keys) > 1, sorted({str(k[0]) for k in keys}), total)


PARTS = [Part("device", lambda: device(12), device_prop, quick=480, thorough=15000, shards=8,
              rule="rays leave by two facets and there is a component, cell or mirror"),
         Part("law", law_case, law_prop, quick=64, thorough=3000, shards=8, rule="two laws were observed")]
