"""C03: surfaces reflect and refract by the laws of optics."""
import math
import types

import numpy as np
from hypothesis import strategies as st

from harness import gen, geom, oracle, scenes as sc, trace
from harness.core import Info, Part, require

ID = "C03"
RULE = ("A case is one or more generated scenes and a seed. Exact parts compare the normal and the new "
        "direction of every REFLECT/TRANSMIT with the mirror law and Snell's law for the indices either "
        "side (from the reference geometry); statistical parts compare how often light is reflected with "
        "the unpolarised Fresnel formula, per angle band, by a two-stage z test. Evaluations are surface "
        "events decided. Non-trivial: the case has both a REFLECT and a TRANSMIT.")
ASSUMPTIONS = ["statistical parts: a deviation counts only when seen in two independent samples "
               "(z > 6, then z > 5.5 on a sample four times larger)"]


@st.composite
def engine_case(draw):
    return {"scene": draw(sc.scene(sc.Options(max_components=1))), "seed": draw(gen.seeds)}


def exact(model, hs):
    flat = oracle.Flat(hs)
    steps = oracle.Steps(model, flat)
    n = oracle.check_surfaces(model, flat, steps)
    kinds = set(flat.kind)
    return Info(nontrivial={"REFLECT", "TRANSMIT"} <= kinds, evaluations=n,
                classes=sorted(k for k in kinds if k in ("REFLECT", "TRANSMIT")))


def engine_prop(case):
    return exact(sc.Model(case["scene"]),
                 trace.engine(case["scene"], 300, case["seed"], maxsteps=100, max_events=400).histories())


@st.composite
def python_case(draw):
    kinds = draw(st.sampled_from([("box", "sphere", "cylinder"), ("mesh",), ("box", "mesh")]))
    surfaces = ("fresnel", "fresnel", "null", {"constant": draw(gen.num(0.1, 0.9))})
    return {"scene": draw(sc.scene(sc.Options(kinds=kinds, max_components=1, surfaces=surfaces))),
            "seed": draw(gen.seeds)}


def python_prop(case):
    return exact(sc.Model(case["scene"]),
                 trace.python(case["scene"], 15, case["seed"], maxsteps=40))


@st.composite
def stat_case(draw, tracer, count):
    surfaces = ("fresnel", "fresnel", "fresnel", "null")
    if tracer == "python":
        surfaces = ("fresnel", "fresnel", {"constant": draw(gen.num(0.1, 0.9))})
    opt = sc.Options(components=False, surfaces=surfaces, max_nodes=5,
                     kinds=("box", "sphere", "cylinder"))
    return {"scenes": [draw(sc.scene(opt)) for _ in range(count)], "seed": draw(gen.seeds),
            "tracer": tracer}


def stat_prop(case):
    total = {"n": 0, "both": False}
    models = [sc.Model(s) for s in case["scenes"]]

    def run(stage, factor):
        obs = oracle.Observations()
        for k, (spec, model) in enumerate(zip(case["scenes"], models)):
            seed = case["seed"] + 7919 * stage + 104729 * k
            if case["tracer"] == "engine":
                hs = trace.engine(spec, 1500 * factor, seed, maxsteps=30, max_events=80).histories()
            else:
                hs = trace.python(spec, 150 * factor, seed, maxsteps=8)
            flat = oracle.Flat(hs)
            steps = oracle.Steps(model, flat)
            total["n"] += oracle.check_surfaces(model, flat, steps, obs)
            total["both"] |= {"REFLECT", "TRANSMIT"} <= set(flat.kind)
        return obs

    obs = oracle.confirmed(run)
    return Info(nontrivial=total["both"], evaluations=total["n"],
                classes=sorted({"/".join(map(str, k[:3])) for k in obs.counts()}))


# ------------------------------------------------------------------ one pencil of rays, one face
@st.composite
def face_case(draw):
    kind = draw(st.sampled_from(["box", "sphere", "side", "cap"]))
    size = [draw(gen.num(0.5, 4.0)) for _ in range(3)]
    u, v, w = draw(gen.num(-1, 1)), draw(gen.num(-1, 1)), draw(gen.num(0, 2 * math.pi))
    sign = draw(st.sampled_from([-1.0, 1.0]))
    if kind == "box":
        axis = draw(st.integers(0, 2))
        p = [size[k] * 0.25 * (u if k == (axis + 1) % 3 else v) for k in range(3)]
        p[axis] = sign * size[axis] / 2
        normal = [sign * (k == axis) for k in range(3)]
        shape, room = {"type": "box", "size": size}, 0.2 * min(size)
    elif kind == "sphere":
        normal = draw(gen.unit_vector())
        p = [size[0] * x for x in normal]
        shape, room = {"type": "sphere", "radius": size[0]}, size[0]
    else:
        shape = {"type": "cylinder", "length": size[0], "radius": size[1]}
        if kind == "side":
            normal = [math.cos(w), math.sin(w), 0.0]
            p = [size[1] * normal[0], size[1] * normal[1], size[0] * 0.25 * u]
        else:
            normal = [0.0, 0.0, sign]
            p = [0.3 * size[1] * u, 0.3 * size[1] * v, sign * size[0] / 2]
        room = 0.2 * min(size[:2])
    n1 = draw(st.one_of(st.just(1.0), gen.num(1.0, 3.0)))
    n2 = draw(st.one_of(gen.num(1.0, 3.0), gen.num(1.0, 3.0), st.tuples(gen.lognum(3e-3, 0.3), st.booleans()).map(
        lambda t: n1 * (1 + t[0]) if t[1] else n1 / (1 + t[0]))))
    angle = draw(st.sampled_from(["any", "any", "any", "normal", "brewster", "critical", "grazing"]))
    if angle == "critical" and n1 > n2:
        theta = math.asin(n2 / n1) * (1 - draw(st.sampled_from([1, 1, 1, -1])) * draw(gen.lognum(1e-5, 0.1)))
    elif angle == "brewster":
        theta = math.atan(n2 / n1)
    elif angle == "normal":
        theta = draw(st.sampled_from([0.0, 0.0, 1e-3, 0.05]))
    elif angle == "grazing":
        theta = draw(gen.num(1.4, 1.55))
    else:
        theta = draw(gen.num(0.0, 1.5))
    theta = min(theta, 1.55)
    inside = draw(st.booleans())
    return {"kind": kind, "shape": shape, "p": p, "normal": normal, "room": room, "n1": n1, "n2": n2, "theta": theta,
            "azimuth": w, "inside": inside, "angle": angle if angle != "critical" or n1 > n2 else "any",
            "location": [draw(gen.num(-3, 3)) for _ in range(3)], "rotations": [draw(gen.axis_angle())],
            "distance": draw(gen.num(0.3, 2.0)), "seed": draw(gen.seeds)}


def aim(case):
    """Start and direction of the ray, in the frame of the solid."""
    normal = np.array(case["normal"])
    a = np.cross(normal, [0.0, 0.0, 1.0] if abs(normal[2]) < 0.9 else [1.0, 0.0, 0.0])
    a /= np.linalg.norm(a)
    b = np.cross(normal, a)
    tangent = math.cos(case["azimuth"]) * a + math.sin(case["azimuth"]) * b
    c, s = math.cos(case["theta"]), math.sin(case["theta"])
    d = (c if case["inside"] else -c) * normal + s * tangent
    back = case["room"] * c if case["inside"] else case["distance"]
    return np.array(case["p"]) - back * d, d


def face_law(case):
    n1, n2 = case["n1"], case["n2"]         # n1: where the ray comes from
    s2 = (n1 / n2 * math.sin(case["theta"])) ** 2
    near = abs(s2 - 1) < 1e-7
    return None if near else oracle.reflectivity("fresnel", math.cos(case["theta"]), n1, n2)


def face_engine(case):
    start, d = aim(case)
    n1, n2 = (case["n2"], case["n1"]) if case["inside"] else (case["n1"], case["n2"])
    axis = np.cross([0.0, 0.0, 1.0], d)
    turn = [math.atan2(float(np.linalg.norm(axis)), float(d[2])),
            (axis / np.linalg.norm(axis)).tolist() if np.linalg.norm(axis) > 1e-12 else [1.0, 0.0, 0.0]]
    pose = geom.rigid(case["location"], case["rotations"])
    rotations = [turn]
    if not case["inside"]:
        start = pose[:3, :3] @ start + pose[:3, 3]
        rotations = [turn] + list(case["rotations"])
    solid = lambda name, parent, shape, n: {"name": name, "parent": parent, "location": [0.0, 0.0, 0.0], "rotations": [],
                                            "shape": shape, "n": n, "surface": "fresnel", "components": []}
    spec = {"nodes": [
        solid("world", None, {"type": "sphere", "radius": 30.0}, n1),
        dict(solid("solid", 0, case["shape"], n2), location=case["location"], rotations=case["rotations"]),
        {"name": "lamp", "parent": 1 if case["inside"] else 0, "location": start.tolist(), "rotations": rotations,
         "shape": None, "components": [], "light": {"name": "lamp", "wavelength": None, "position": None, "direction": None}}]}
    R = face_law(case)
    if R is None:
        return Info(nontrivial=False, evaluations=0, classes=["on the critical angle"])
    n = int(min(400000, max(20000, 60 / max(R, 1e-9))))

    def run(stage, factor):
        result = trace.engine(spec, n * factor, case["seed"] + 7919 * stage, maxsteps=2, max_events=4)
        counts = {k.name: v for k, v in result.event_counts().items()}
        x = counts.get("REFLECT", 0)
        require(x + counts.get("TRANSMIT", 0) == n * factor, "%d rays meet the face, but %r", n * factor, counts)
        if stage == 0:
            ray, _, meta = next(iter(result.histories()))[1]
            at = pose[:3, :3] @ np.array(case["p"]) + pose[:3, 3]
            require(meta["hit"] == "solid" and np.abs(np.array(ray.position) - at).max() < 1e-4,
                    "the ray aimed at %s of the solid meets %r at %s", at.tolist(), meta["hit"], ray.position)
        if R >= 1.0:
            require(x == n * factor, "%d of %d rays leave beyond the critical angle", n * factor - x, n * factor)
        obs = oracle.Observations()
        N = n * factor
        obs.b[("reflect", "R=%.3g" % R)] = [N, x, N * R, N * R * (1 - R)]
        return obs

    oracle.confirmed(run, factor=2)
    return Info(nontrivial=0 < R < 1, evaluations=n, classes=face_classes(case, R))


def face_classes(case, R):
    return [case["kind"], "from inside" if case["inside"] else "from outside", case["angle"],
            "R " + ("= 1" if R >= 1 else "< 0.001" if R < 1e-3 else "< 0.01" if R < 1e-2 else "< 0.1" if R < 0.1 else ">= 0.1")]


def face_python(case):
    """The surface object itself: reflectivity, decisions and directions."""
    from pvtrace import Material, Ray, Surface
    from pvtrace.material.surface import FresnelSurfaceDelegate

    _, d = aim(case)
    surface = Surface()
    solid = sc.build_shape(dict(case["shape"]), Material(refractive_index=1.0, surface=surface))
    node = lambda n: types.SimpleNamespace(geometry=types.SimpleNamespace(material=Material(refractive_index=n)))
    around = node(case["n1"]), node(case["n2"])
    ray = Ray(tuple(case["p"]), tuple(d.tolist()), 555.0)
    R = face_law(case)
    if R is None:
        return Info(nontrivial=False, evaluations=0, classes=["on the critical angle"])
    got = FresnelSurfaceDelegate().reflectivity(surface, ray, solid, *around)
    # near the critical angle and near grazing the law is steep
    c = math.cos(case["theta"])
    ct = math.sqrt(max(1e-12, abs(1 - (case["n1"] / case["n2"]) ** 2 * (1 - c * c))))
    require(abs(got - R) < 1e-9 / min(c, ct) ** 2, "reflectivity %r, Fresnel's formulas give %r (n1=%r n2=%r angle=%r)",
            got, R, case["n1"], case["n2"], case["theta"])
    face = np.array(case["normal"]) * (1.0 if case["inside"] else -1.0)
    mirrored = surface.reflect(ray, solid, *around)
    require(np.abs(np.array(mirrored.direction) - (d - 2 * (d @ face) * face)).max() < 1e-9, "reflected along %s", mirrored.direction)
    require(mirrored.position == ray.position and mirrored.wavelength == ray.wavelength, "reflection changes %r to %r", ray, mirrored)
    if R < 1:
        through = surface.transmit(ray, solid, *around)
        r = case["n1"] / case["n2"]
        want = r * d + (math.sqrt(max(0.0, 1 - r * r * (1 - c * c))) - r * c) * face
        require(np.abs(np.array(through.direction) - want).max() < 1e-9 / ct, "refracted along %s, Snell's law gives %s",
                through.direction, want.tolist())
        require(through.position == ray.position and through.wavelength == ray.wavelength,
                "refraction changes %r to %r", ray, through)

    def run(stage, factor):
        np.random.seed((case["seed"] + 7919 * stage) % (2 ** 31))
        N = 1500 * factor
        x = sum(bool(surface.is_reflected(ray, solid, *around)) for _ in range(N))
        obs = oracle.Observations()
        obs.b[("reflect", "R=%.3g" % R)] = [N, x, N * R, N * R * (1 - R)]
        return obs

    oracle.confirmed(run)
    return Info(nontrivial=0 < R < 1, evaluations=1500, classes=face_classes(case, R))


PARTS = [
    Part("face", face_case, face_engine, quick=240, thorough=12000, shards=8, rule="reflectivity strictly between 0 and 1"),
    Part("face-python", face_case, face_python, quick=160, thorough=8000, shards=8,
         rule="reflectivity strictly between 0 and 1"),
    Part("engine-exact", engine_case, engine_prop, quick=320, thorough=12000, shards=8,
         rule="both a REFLECT and a TRANSMIT"),
    Part("python-exact", python_case, python_prop, quick=200, thorough=6000, shards=8,
         rule="both a REFLECT and a TRANSMIT"),
    Part("engine-reflectivity", lambda: stat_case("engine", 4), stat_prop, quick=24, thorough=1600,
         shards=8, rule="both a REFLECT and a TRANSMIT"),
    Part("python-reflectivity", lambda: stat_case("python", 2), stat_prop, quick=24, thorough=1000,
         shards=8, rule="both a REFLECT and a TRANSMIT"),
]
