"""C12: lights emit the rays they describe, in turn, from where they are."""
import functools
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from harness import geom, oracle, scenes as sc, trace
from harness.core import Info, Part, Violation, require
from harness.gen import axis_angle, num, seeds, unit_vector

ID = "C12"
RULE = ("A case is a scene graph with up to five lights in posed nodes, each with wavelength, position and direction "
        "delegates of any kind (built-in functions and classes, partial functions, subclasses, custom callables and "
        "light classes), a way of emitting (Scene.emit, Node.emit, Light.emit, emit_bundle, the first event of an "
        "engine history), a seed and a number of rays. turns: every ray is compared with the light whose turn it is. "
        "laws: what is random is mapped to variables that are uniform and independent by the stated law, and tested "
        "in two independent samples. Evaluations are rays. Non-trivial: two or more lights with a rotated frame, or "
        "100 or more random rays of one light.")
ASSUMPTIONS = ["between the points of a spectrum the cumulative distribution is linear",
               "positions are uniform over the stated rectangle, disc or cuboid; lambertian directions have "
               "sin^2(theta) uniform, cones sin^2(theta) uniform up to the half angle, as documented",
               "the n-th light in the scene's list of light nodes takes the n-th turn"]

WAYS = ["scene", "scene", "bundle", "bundle", "engine", "node", "light"]


# ---------------------------------------------------------------- generation
@st.composite
def spectrum(draw):
    n = draw(st.integers(2, 6))
    x = [draw(num(310, 400))]
    for _ in range(n - 1):
        x.append(x[-1] + draw(num(3, 90)))
    y = [draw(st.one_of(st.just(0.0), num(0.0, 2.0))) for _ in range(n)]
    if max(y) < 1e-3:
        y[0] = y[-1] = 1.0
    hist = draw(st.booleans()) and draw(st.booleans())
    return {"x": x, "y": y, "hist": hist}


@st.composite
def light(draw, i):
    L = {"name": "light-%d" % i, "class": draw(st.sampled_from(["light"] * 5 + ["subclass", "own-emit"]))}
    k = draw(st.sampled_from(["none", "function", "default", "constant", "constant", "spectrum", "spectrum",
                              "spectrum", "sequence", "subclass"]))
    L["wavelength"] = {"kind": k}
    if k in ("constant", "subclass"):
        L["wavelength"]["value"] = draw(st.one_of(num(300, 1000), st.integers(300, 1000)))
    elif k == "spectrum":
        L["wavelength"].update(draw(spectrum()))
    k = draw(st.sampled_from(["none", "function", "default", "rect", "rect", "circle", "circle", "cube", "cube",
                              "partial-rect", "partial-circle", "partial-cube", "sequence", "subclass"]))
    L["position"] = {"kind": k, "size": [draw(num(0.01, 2.0)) for _ in range(3)]}
    k = draw(st.sampled_from(["none", "default", "isotropic", "isotropic", "lambertian", "cone", "cone", "hg", "hg",
                              "partial-cone", "partial-hg", "sequence", "subclass"]))
    L["direction"] = {"kind": k}
    if "cone" in k or k == "subclass":
        L["direction"]["cone"] = draw(st.one_of(num(0.01, math.pi / 2), st.just(math.pi / 2)))
    if "hg" in k:
        L["direction"]["hg"] = draw(st.one_of(num(-0.95, 0.95), num(-0.1, 0.1), st.sampled_from([0.0, 1e-9, -1e-5])))
    L["list"] = draw(st.sampled_from(["tuple", "list", "array"]))
    return L


@st.composite
def turns_case(draw):
    k = draw(st.integers(1, 5))
    nodes = []
    for i in range(draw(st.integers(0, 4))):
        nodes.append({"parent": draw(st.integers(0, i)), "location": [draw(num(-1, 1)) for _ in range(3)],
                      "rotations": [draw(axis_angle()) for _ in range(draw(st.integers(0, 2)))]})
    lights = []
    for i in range(k):
        L = draw(light(i))
        lights.append({"light": L, "parent": draw(st.integers(0, len(nodes))),
                       "location": [draw(num(-1, 1)) for _ in range(3)],
                       "rotations": [draw(axis_angle()) for _ in range(draw(st.integers(0, 2)))]})
    if draw(st.integers(0, 4)) == 0:    # a light that is the parent of a light
        lights[-1]["below"] = draw(st.integers(0, k - 1))
    return {"nodes": nodes, "lights": lights, "way": draw(st.sampled_from(WAYS)), "rays": draw(st.integers(0, 40)),
            "first": draw(st.one_of(st.just(0), st.integers(0, 13))), "seed": draw(seeds),
            "unlit": draw(st.booleans())}


@st.composite
def law_case(draw):
    L = draw(light(0))
    return {"nodes": [], "lights": [{"light": L, "parent": 0, "location": [draw(num(-1, 1)) for _ in range(3)],
                                     "rotations": [draw(axis_angle()) for _ in range(draw(st.integers(0, 2)))]}],
            "way": draw(st.sampled_from(["scene", "bundle", "bundle", "node"])),
            "rays": 600, "first": 0, "seed": draw(seeds), "unlit": False}


# ------------------------------------------------------------------ building
def fixed(i, which, j):
    """The j-th value of the custom delegate `which` of light i."""
    if which == "wavelength":
        return 400.0 + 10 * i + j
    if which == "position":
        return (0.1 * i + 0.01 * j, -0.02 * j, 0.3 + 0.005 * j)
    a, b = 0.3 * i + 0.7 * j, 0.5 + 0.11 * j
    return (math.sin(b) * math.cos(a), math.sin(b) * math.sin(a), math.cos(b))


def build(case):
    from pvtrace import Distribution, Light, Material, Node, Scene, Sphere
    from pvtrace.light import light as lm
    from pvtrace.material import utils as mu

    def shaped(L, v):
        return {"tuple": tuple, "list": list, "array": np.array}[L["list"]](v)

    def counter(i, which, L):
        c = itertools.count()
        if which == "wavelength":
            return lambda: fixed(i, which, next(c))
        return lambda: shaped(L, fixed(i, which, next(c)))

    class Late(lm.ConstantWavelengthMask):
        def __call__(self):
            return self.nanometers + 0.5

    class Raised(lm.RectangularMask):
        def __call__(self):
            x, y, _ = super().__call__()
            return (x, y, 0.25)

    class Backwards(mu.Cone):
        def __call__(self):
            x, y, z = super().__call__()
            return (x, y, -z)

    class Sub(Light):
        pass

    class Shifted(Light):
        def emit(self, num_rays=None):
            from dataclasses import replace

            for ray in super().emit(num_rays):
                yield replace(ray, wavelength=ray.wavelength + 0.125)

    root = Node(name="world", geometry=Sphere(radius=40.0, material=Material(refractive_index=1.0)))
    made, poses = [root], [np.eye(4)]

    def place(node, spec, parent):
        m = geom.rigid(spec["location"], spec["rotations"])
        node.pose = m
        return parent @ m

    for j, n in enumerate(case["nodes"]):
        node = Node(name="g%d" % j, parent=made[n["parent"]])
        poses.append(place(node, n, poses[n["parent"]]))
        made.append(node)
    lit = []
    for i, n in enumerate(case["lights"]):
        L = n["light"]
        w, p, d = L["wavelength"], L["position"], L["direction"]
        wav = {"none": lambda: None, "function": lambda: lm.default_wavelength,
               "default": lambda: lm.DefaultWavelength(), "constant": lambda: lm.ConstantWavelengthMask(w["value"]),
               "spectrum": lambda: lm.SpectrumWavelengthMask(
                   Distribution(np.array(w["x"]), np.array(w["y"]), hist=w["hist"])),
               "sequence": lambda: counter(i, "wavelength", L), "subclass": lambda: Late(w["value"])}[w["kind"]]()
        a, b, c = p["size"]
        pos = {"none": lambda: None, "function": lambda: lm.default_position,
               "default": lambda: lm.DefaultPosition(), "rect": lambda: lm.RectangularMask(a, b),
               "circle": lambda: lm.CircularMask(a), "cube": lambda: lm.CubeMask(a, b, c),
               "partial-rect": lambda: functools.partial(lm.rectangular_mask, a, b),
               "partial-circle": lambda: functools.partial(lm.circular_mask, a),
               "partial-cube": lambda: functools.partial(lm.cube_mask, a, b, c),
               "sequence": lambda: counter(i, "position", L), "subclass": lambda: Raised(a, b)}[p["kind"]]()
        dr = {"none": lambda: None, "default": lambda: lm.DefaultDirection(), "isotropic": lambda: mu.isotropic,
              "lambertian": lambda: mu.lambertian, "cone": lambda: mu.Cone(d["cone"]),
              "partial-cone": lambda: functools.partial(mu.cone, d["cone"]),
              "hg": lambda: mu.HenyeyGreenstein(d["hg"]),
              "partial-hg": lambda: functools.partial(mu.henyey_greenstein, d["hg"]),
              "sequence": lambda: counter(i, "direction", L), "subclass": lambda: Backwards(d["cone"])}[d["kind"]]()
        cls = {"light": Light, "subclass": Sub, "own-emit": Shifted}[L["class"]]
        below = n.get("below")
        if below is not None and below < i:
            parent, base = lit[below][0], lit[below][1]
        else:
            parent, base = made[n["parent"]], poses[n["parent"]]
        node = Node(name="holder-%d" % i, parent=parent,
                    light=cls(wavelength=wav, position=pos, direction=dr, name=L["name"]))
        lit.append((node, place(node, n, base), i))
    if case["unlit"]:
        Node(name="dark", parent=root)
    return Scene(root), lit


def emitted(case, scene, lit, n, first):
    """[(i, position, direction, wavelength, source)] in the frame named by the way."""
    way = case["way"]
    if way == "scene":
        rays = list(scene.emit(n))
    elif way == "node":
        rays = list(lit[0][0].emit(n))
    elif way == "light":
        rays = list(itertools.islice(lit[0][0].light.emit(), n))
    elif way == "engine":
        import pvtrace.engine as engine

        result = engine.simulate(scene, n, seed=case["seed"], workers=2, first_ray=first)
        rays = [h[0][0] for h in result.histories()]
        for r, h in zip(rays, result.histories()):
            require(h[0][1].name == "GENERATE", "first event is %s", h[0][1])
    else:
        from pvtrace.engine.emit import emit_bundle

        p, d, w, s = emit_bundle(scene, n, first)
        require(len(p) == len(d) == len(w) == len(s) == n, "bundle of %d: %s", n, (len(p), len(d), len(w), len(s)))
        return [(tuple(map(float, a)), tuple(map(float, b)), float(c), e) for a, b, c, e in zip(p, d, w, s)]
    for r in rays:
        require(r.travelled == 0 and r.duration == 0, "emitted ray has travelled %g in %g", r.travelled, r.duration)
    return [(tuple(r.position), tuple(r.direction), r.wavelength, r.source) for r in rays]


def check_ray(L, i, j, p, d, w, tol, where):
    """One ray of light i (its j-th) in the frame of the light."""
    W, P, D = L["wavelength"], L["position"], L["direction"]
    shift = 0.125 if L["class"] == "own-emit" else 0.0
    w = w - shift
    k = W["kind"]
    if k == "spectrum":
        if W["hist"]:
            near = min(range(len(W["x"])), key=lambda m: abs(W["x"][m] - w))
            require(abs(W["x"][near] - w) < 1e-9 and W["y"][near] > 0, "%s: wavelength %r is not one of %s with "
                    "weights %s", where, w, W["x"], W["y"])
        else:
            require(W["x"][0] - 1e-9 <= w <= W["x"][-1] + 1e-9, "%s: wavelength %r is outside %s", where, w, W["x"])
            y = W["y"]
            for a in range(len(y) - 1):
                if y[a] == 0 == y[a + 1]:
                    require(not W["x"][a] + 1e-6 < w < W["x"][a + 1] - 1e-6, "%s: wavelength %r where the spectrum "
                            "%s %s is zero", where, w, W["x"], y)
    else:
        want = {"none": 555.0, "function": 555.0, "default": 555.0, "constant": W.get("value"),
                "sequence": fixed(i, "wavelength", j), "subclass": (W.get("value") or 0) + 0.5}[k]
        require(abs(w - want) < 1e-9, "%s: wavelength is %r, should be %r", where, w + shift, want + shift)
    k = P["kind"].replace("partial-", "")
    a, b, c = P["size"]
    if k in ("rect", "subclass"):
        z = 0.25 if k == "subclass" else 0.0
        require(abs(p[0]) <= a + tol and abs(p[1]) <= b + tol and abs(p[2] - z) < tol,
                "%s: position %s is outside the rectangle %s", where, tuple(p), (a, b))
    elif k == "circle":
        require(math.hypot(p[0], p[1]) <= a + tol and abs(p[2]) < tol, "%s: position %s is outside the disc of "
                "radius %r", where, tuple(p), a)
    elif k == "cube":
        require(all(abs(v) <= s + tol for v, s in zip(p, (a, b, c))), "%s: position %s is outside the cuboid %s",
                where, tuple(p), (a, b, c))
    else:
        want = fixed(i, "position", j) if k == "sequence" else (0, 0, 0)
        require(np.abs(p - want).max() < tol, "%s: position is %s, should be %s", where, tuple(p), want)
    require(abs(float(d @ d) - 1) < 1e-9, "%s: direction %s is not a unit vector", where, tuple(d))
    k = D["kind"].replace("partial-", "")
    if k in ("cone", "subclass"):
        z = -d[2] if k == "subclass" else d[2]
        require(z > math.cos(D["cone"]) - 1e-9, "%s: direction %s is outside the cone of half angle %r", where,
                tuple(d), D["cone"])
    elif k == "lambertian":
        require(d[2] > -1e-9, "%s: direction %s points backwards", where, tuple(d))
    elif k in ("none", "default", "sequence"):
        want = fixed(i, "direction", j) if k == "sequence" else (0, 0, 1)
        require(np.abs(d - want).max() < 1e-9, "%s: direction is %s, should be %s", where, tuple(d), want)


def to_local(case, m, p, d):
    """In the frame of the light, whose pose in the world is m."""
    if case["way"] in ("node", "light"):
        return np.array(p, float), np.array(d, float)
    r = m[:3, :3]
    return (np.array(p) - m[:3, 3]) @ r, np.array(d) @ r


def turns_prop(case):
    scene, lit = build(case)
    n = case["rays"]
    first = case["first"] if case["way"] in ("bundle", "engine") else 0
    order = {node: (m, i) for node, m, i in lit}
    listed = list(scene.light_nodes)
    require(len(listed) == len(lit) and set(listed) == set(order), "light nodes are %s",
            [x.name for x in listed])
    single = case["way"] in ("node", "light")
    turn = [lit[0][0]] if single else listed
    counts = {}
    np.random.seed(case["seed"])
    rays = emitted(case, scene, lit, n, first)
    require(len(rays) == n, "%d rays emitted, asked for %d", len(rays), n)
    for q, (p, d, w, s) in enumerate(rays):
        m, i = order[turn[(q + first) % len(turn)]]
        L = case["lights"][i]["light"]
        j = counts.get(i, 0)
        counts[i] = j + 1
        where = "ray %d (turn of %s)" % (q, L["name"])
        require(s == L["name"], "%s: source is %r", where, s)
        lp, ld = to_local(case, m, p, d)
        check_ray(L, i, j, lp, ld, w, 1e-9, where)
    if case["way"] in ("scene", "bundle") and n:
        from pvtrace import Node, Scene, Sphere, Material
        from pvtrace.engine.emit import emit_bundle

        dark = Scene(Node(name="world", geometry=Sphere(radius=1.0, material=Material(refractive_index=1.0))))
        try:
            got = list(dark.emit(n)) if case["way"] == "scene" else emit_bundle(dark, n)
        except Exception:
            got = None
        require(got is None, "a scene without lights emits %d rays", n)
    turned = any(x["rotations"] for x in case["lights"] + case["nodes"])
    return Info(nontrivial=turned and len(turn) > 1 and n > len(turn), evaluations=n,
                classes=[case["way"]] + sorted({"%s=%s" % (k, x["light"][k]["kind"]) for x in case["lights"]
                                                for k in ("wavelength", "position", "direction")}))


def uniforms(L, p, d, w):
    """{name: values that are independent and uniform on [0, 1] for this light}."""
    out = {}
    W, P, D = L["wavelength"], L["position"], L["direction"]
    if W["kind"] == "spectrum" and not W["hist"]:
        x, y = np.array(W["x"]), np.array(W["y"])
        c = np.concatenate([[0.0], np.cumsum(0.5 * (y[1:] + y[:-1]) * np.diff(x))])
        out["wavelength"] = np.interp(w - (0.125 if L["class"] == "own-emit" else 0), x, c / c[-1])
    k = P["kind"].replace("partial-", "")
    a, b, c = P["size"]
    if k in ("rect", "cube", "subclass"):
        out["x"] = 0.5 + 0.5 * p[:, 0] / a
        out["y"] = 0.5 + 0.5 * p[:, 1] / b
    if k == "cube":
        out["z"] = 0.5 + 0.5 * p[:, 2] / c
    if k == "circle":
        out["r2"] = (p[:, 0] ** 2 + p[:, 1] ** 2) / a ** 2
        out["angle"] = np.arctan2(p[:, 1], p[:, 0]) / (2 * math.pi) + 0.5
    k = D["kind"].replace("partial-", "")
    z = -d[:, 2] if k == "subclass" else d[:, 2]
    s2 = d[:, 0] ** 2 + d[:, 1] ** 2
    if k in ("none", "default", "sequence"):
        return out
    if k == "isotropic":
        out["polar"] = 0.5 + 0.5 * z
    elif k == "lambertian":
        out["polar"] = s2
    elif k in ("cone", "subclass"):
        out["polar"] = s2 / math.sin(D["cone"]) ** 2
    elif abs(D["hg"]) < 1e-4:
        out["polar"] = 0.5 + 0.5 * z
    else:
        g = D["hg"]
        out["polar"] = (1 - g * g) / (2 * g) * (1 / np.sqrt(np.maximum(1e-300, 1 + g * g - 2 * g * z)) - 1 / (1 + g))
    out["azimuth"] = np.arctan2(d[:, 1], d[:, 0]) / (2 * math.pi) + 0.5
    return out


def law_prop(case):
    L = case["lights"][0]["light"]
    seen = {}

    def run(stage, factor):
        scene, lit = build(case)
        np.random.seed((case["seed"] + 7919 * stage) % (2 ** 31))
        # sampling whole bundles costs little, unless the light has delegates of its own
        fast = case["way"] == "bundle" and L["class"] == "light" and not any(
            L[k]["kind"].startswith(("partial", "seq", "sub")) for k in ("wavelength", "position", "direction"))
        n = case["rays"] * factor * (20 if fast else 5)
        rays = emitted(case, scene, lit, n, 0)
        require(len(rays) == n, "%d rays emitted, asked for %d", len(rays), n)
        p, d, w, _ = zip(*rays)
        p, d = to_local(case, lit[0][1], p, d)
        w = np.array(w)
        obs = oracle.Observations()
        u = {k: np.clip(v, 0, 1) for k, v in uniforms(L, p, d, w).items()}
        key = (case["way"],)
        for a, v in u.items():
            obs.uniform(key + (a,), v)
            half = len(v) // 2
            for lag in (1, 2, half):
                m = min(half, len(v) - lag)
                obs.uniform(key + (a, "rays %d apart" % lag), np.mod(v[:m] + v[lag:lag + m], 1))
        for a, b in itertools.combinations(sorted(u), 2):
            obs.uniform(key + (a, b, "sum"), np.mod(u[a] + u[b], 1))
            obs.uniform(key + (a, b, "difference"), np.mod(u[a] - u[b], 1))
        W = L["wavelength"]
        if W["kind"] == "spectrum" and W["hist"]:
            weight = np.array(W["y"]) / sum(W["y"])
            for x, q in zip(W["x"], weight):
                got = np.abs(w - (0.125 if L["class"] == "own-emit" else 0) - x) < 1e-6
                for g in got:
                    obs.bernoulli(key + ("wavelength %g" % x,), g, q)
        seen["n"] = n if u else 0
        seen["kinds"] = sorted(u)
        return obs

    oracle.confirmed(run)
    return Info(nontrivial=seen["n"] >= 100, evaluations=seen["n"],
                classes=["%s=%s" % (k, L[k]["kind"]) for k in ("wavelength", "position", "direction")])


PARTS = [
    Part("turns", turns_case, turns_prop, quick=2400, thorough=100000, shards=8,
         rule="several lights, some frame rotated, more rays than lights"),
    Part("laws", law_case, law_prop, quick=500, thorough=20000, shards=8, rule="100 random rays"),
]
