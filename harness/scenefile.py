"""Scene files: generated documents, how to write them, and the scene each one describes, built without parsing."""
import math
import os

import numpy as np
import yaml
from hypothesis import strategies as st

from harness import geom
from harness.gen import axis_angle, lognum, num, unit_vector

NAMES = ["box", "lsc", "rod-1", "a.b", "x_y", "A", "1", "1.5", "007", "1e3", "true", "null", "-", "...", "World",
         "light", "n" * 40, "0x1F", "12-30", "yes", "top", "sphere"]
STLS = ["tetra", "block"]


# ------------------------------------------------------------------ generation
def sig(value):
    return float("%.4g" % value)


def number(lo, hi):
    """Numbers as people write them: integers, short decimals and long ones."""
    lo_i, hi_i = math.ceil(lo), math.floor(hi)
    short = num(lo, hi).map(lambda v: min(max(round(v, 2), lo), hi))
    kinds = [num(lo, hi), short]
    if lo_i <= hi_i:
        kinds.append(st.integers(lo_i, hi_i))
    return st.one_of(*kinds)


@st.composite
def table(draw, whole=True):
    """Points of a spectrum over all wavelengths in use."""
    k = draw(st.integers(2, 7))
    ints = draw(st.booleans()) and whole
    if ints:
        cuts = sorted(draw(st.lists(st.integers(301, 999), min_size=k - 2, max_size=k - 2, unique=True)))
        x = [300] + cuts + [1000]
        y = [draw(st.integers(0, 5)) for _ in range(k)]
        if max(y) == 0:
            y[-1] = 2
    else:
        w = [draw(num(0.2, 3.0)) for _ in range(k - 1)]
        x = [300.0]
        for v in w:
            x.append(x[-1] + 700.0 * v / sum(w))
        x[-1] = 1000.0
        y = [draw(num(0.01, 3.0)) for _ in range(k)]
    return {"x": x, "y": y}


@st.composite
def spectrum(draw, files):
    if draw(st.integers(0, 2)) == 0:
        name = draw(st.sampled_from(["lumogen-f-red-305", "fluro-red"]))
        return {"name": name, "range": {"min": draw(st.sampled_from([300, 250.0])), "max": 1000,
                                        "spacing": draw(st.sampled_from([2, 5, 10, 2.5, 50, 0.7, 1.4]))}}
    t = draw(table())
    name = "%s%d.csv" % (draw(st.sampled_from(["", "./", "sub/", "./sub dir/"])), len(files))
    files[os.path.normpath(name)] = {"csv": t, "header": draw(st.sampled_from([["", "x", "y"],
                                                                           ["i", "nanometers", "value"]]))}
    if draw(st.integers(0, 4)) == 0:
        name = "@/" + os.path.normpath(name)        # absolute: completed when written
    return {"file": name}


@st.composite
def phase(draw, text=False):
    k = draw(st.integers(0, 4 + text))
    return [{"isotropic": None}, {"lambertian": None}, {"cone": {"half-angle": draw(number(1, 90))}},
            {"cone": {"half-angle": draw(st.sampled_from(["22.5", "45"]))}},
            {"henyey-greenstein": {"g": draw(number(-0.95, 0.95))}}, "isotropic"][k]


@st.composite
def component(draw, files, hist=True):
    kind = draw(st.sampled_from(["absorber", "scatterer", "luminophore"]))
    body = {}
    how = draw(st.sampled_from(["both", "both", "coefficient", "spectrum"]))
    a = {}
    if how != "spectrum":
        a["coefficient"] = draw(st.one_of(number(0.01, 6), number(0.01, 6), st.sampled_from([0, 0.0, 1])))
    if how != "coefficient":
        a["spectrum"] = draw(spectrum(files))
    if kind == "luminophore":
        body["absorption"] = a
        body["emission"] = {"spectrum": draw(spectrum(files))}
        if draw(st.booleans()):
            body["emission"]["quantum-yield"] = draw(st.one_of(number(0, 1), st.sampled_from([0, 1])))
        if draw(st.booleans()):
            body["emission"]["phase-function"] = draw(phase(text=True))
    else:
        body.update(a)
        if kind == "scatterer":
            if draw(st.booleans()):
                body["quantum-yield"] = draw(st.one_of(number(0, 1), st.sampled_from([0, 1])))
            if draw(st.booleans()):
                body["phase-function"] = draw(phase())
    h = draw(st.sampled_from([None, None, False, True] if hist else [None, None, False]))
    if h is not None:
        body["hist"] = h
    return {kind: body}


@st.composite
def light(draw, files, spread):
    L = {}
    if draw(st.booleans()):
        L["wavelength"] = draw(number(310, 990))
    if draw(st.integers(0, 3)):
        m = L["mask"] = {}
        k = draw(st.integers(0, 3))
        if k == 1:
            m["wavelength"] = {"nanometers": draw(number(310, 990))}
        elif k == 2:
            m["wavelength"] = {"spectrum": draw(spectrum(files))}
        elif k == 3 and draw(st.booleans()):
            m["wavelength"] = draw(number(310, 990))
        k = draw(st.integers(0, 5))
        if k == 1:
            m["position"] = {"rect": [draw(number(0.01, spread)) for _ in range(2)]}
        elif k == 2:
            m["position"] = {"cube": [draw(number(0.01, spread)) for _ in range(3)]}
        elif k == 3:
            m["position"] = {"circle": draw(number(0.01, spread))}
        elif k == 4 and draw(st.booleans()):
            m["position"] = [draw(number(-spread, spread)) for _ in range(3)]
        k = draw(st.integers(0, 4))
        if k in (1, 2, 3):
            m["direction"] = draw(phase())
        elif k == 4:
            m["direction"] = draw(direction())
        if not m:
            del L["mask"]
    return L


@st.composite
def direction(draw):
    if draw(st.booleans()):
        v = [0, 0, 0]
        v[draw(st.integers(0, 2))] = draw(st.sampled_from([1, -1, 1.0, -1.0, 2, -3]))
        if draw(st.integers(0, 2)) == 0:
            v[draw(st.integers(0, 2))] = 1
        return v if any(v) else [0, 0, 1]
    u = draw(unit_vector())
    s = draw(st.sampled_from([1.0, 1.0, 0.5, 30.0]))
    return [float(c) * s for c in u]


@st.composite
def recorder(draw, node, root, local=5.0):
    event = draw(st.sampled_from(["entering", "escaping", "reflected", "lost", "reacted", "killed"]
                                 + ["exit"] * bool(root)))
    r = {"node": node, "event": event}
    if event in ("entering", "escaping", "reflected") and draw(st.booleans()):
        r["facet"] = draw(st.one_of(direction(), st.sampled_from([[0, 0, 1], [1, 0, 0], [0, -1, 0]])))
        if draw(st.booleans()):
            r["atol"] = draw(st.sampled_from([1e-6, 1e-3, 0, 1]))
    if draw(st.booleans()):
        hs = r["histograms"] = {}
        for prop, lo, hi in (("wavelength", 300, 1000), ("angle", 0, 1.6), ("duration", 0, 1e-9), ("pathlength", 0, 50),
                             ("x", -local, local), ("y", -local, local), ("z", -local, local)):
            if draw(st.integers(0, 3)) == 0:
                hs[prop] = [lo, hi, draw(st.integers(1, 40))]
        if draw(st.integers(0, 2)) == 0:
            a, b = draw(st.permutations(["x", "y", "z", "wavelength"]))[:2]
            f = {"wavelength": [300, 1000.0]}
            hs["position"] = [a, b, f.get(a, [-local, local]) + [draw(st.integers(1, 12))],
                              f.get(b, [-local, local]) + [draw(st.integers(1, 12))]]
    return r


@st.composite
def document(draw, mesh=True, hist=True, record=True, solids=4, lights=3):
    """{"doc": the document, "files": what lies beside it, "style": how it is written}"""
    files = {}
    names = draw(st.permutations(NAMES))
    pool = iter(names)
    W = draw(number(4, 12))
    comps = {}
    for i in range(draw(st.integers(0, 3))):
        comps["%s" % draw(st.sampled_from(["dye", "c.1", "QD-%d" % i, "scat_%d" % i])) if i == 0 else "comp-%d" % i] = \
            draw(component(files, hist))

    def material():
        m = {"refractive-index": draw(st.one_of(number(1, 2.5), st.sampled_from([1, 1.5, 1.0])))}
        k = draw(st.integers(0, 3))
        if comps and k:
            m["components"] = [c for c in comps if draw(st.booleans())]
            if not m["components"] and k > 1:
                m["components"] = [next(iter(comps))]
        return m

    def solid(half):
        """A solid within the ball of radius `half`, and the radius of a ball within it."""
        kind = draw(st.sampled_from(["box", "sphere", "cylinder"] + ["mesh"] * mesh))
        f = draw(st.sampled_from([0.5, 0.7, 0.9]))
        if kind == "box":
            s = [sig(2 * half * f / math.sqrt(3) * draw(st.sampled_from([1, 1, 0.5, 0.2]))) for _ in range(3)]
            return {"box": {"size": s, "material": material()}}, min(s) / 2
        if kind == "sphere":
            return {"sphere": {"radius": sig(half * f), "material": material()}}, half * f * 0.99
        if kind == "cylinder":
            r, h = sig(half * f * 0.6), sig(half * f * 1.5)
            return {"cylinder": {"length": h, "radius": r, "material": material()}}, min(r, h / 2)
        name = draw(st.sampled_from(["", "./", "sub/"])) + "part%d.stl" % len(files)
        files[os.path.normpath(name)] = {"stl": draw(st.sampled_from(STLS)), "half": half * f}
        return {"mesh": {"file": name, "material": material()}}, half * f * 0.1

    wkind = draw(st.sampled_from(["sphere", "box", "cylinder"]))
    world_material = {"refractive-index": draw(st.sampled_from([1, 1.0, 1.33]))}
    world = {"sphere": {"sphere": {"radius": 3 * W, "material": world_material}},
             "box": {"box": {"size": [6 * W, 6 * W, 6.5 * W], "material": world_material}},
             "cylinder": {"cylinder": {"length": 6 * W, "radius": 3 * W, "material": world_material}}}[wkind]
    nodes = [("world", world)]
    spots = draw(st.permutations([(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]))
    room, targets = [], []       # (name, radius inside), locations of solids in the world
    cell = W * 0.9
    for i in range(draw(st.integers(0, solids))):
        name = next(pool)
        if room and draw(st.integers(0, 2)) == 0:
            parent, r = room.pop(draw(st.integers(0, len(room) - 1)))
            body, inner = solid(r * 0.8)
            at = draw(st.one_of(st.none(), st.just([0, 0, 0]), st.lists(num(-0.1 * r, 0.1 * r), min_size=3,
                                                                        max_size=3)))
        else:
            parent = None
            body, inner = solid(cell / 2)
            at = [c * cell for c in spots[i]]
            targets.append(at)
            if all(float(c).is_integer() for c in at):
                at = [int(c) for c in at]
        n = dict(body)
        if parent is not None:
            n["parent"] = parent
        elif draw(st.booleans()):
            n["parent"] = draw(st.sampled_from(["world", "world", None]))
        if at is not None and (any(at) or draw(st.booleans())):
            n["location"] = at
        if draw(st.booleans()):
            n["direction"] = draw(direction())
        if record and "mesh" not in n and draw(st.integers(0, 3)) == 0:
            n["record"] = draw(st.sampled_from([True, True, False]))
        room.append((name, inner))
        nodes.append((name, n))
    for i in range(draw(st.integers(1, lights))):
        n = {"light": draw(light(files, 0.1 * cell))}
        if draw(st.booleans()):
            n["parent"] = draw(st.sampled_from(["world", None]))
        elif len(nodes) > 1 and draw(st.integers(0, 2)) == 0:
            n["parent"] = draw(st.sampled_from([m for m, _ in nodes]))
        if n.get("parent") in (None, "world"):
            n["location"] = [draw(number(-1.3 * W, 1.3 * W)) for _ in range(3)]
        if "location" in n and targets and draw(st.integers(0, 2)):
            to = [sig(a - b + draw(num(-0.1, 0.1)) * cell) for a, b in zip(draw(st.sampled_from(targets)), n["location"])]
            n["direction"] = to if any(abs(v) > 0.01 for v in to) else [0, 0, 1]
        elif draw(st.booleans()):
            n["direction"] = draw(direction())
        nodes.append((next(pool), n))
    nodes = draw(st.permutations(nodes))
    recorders = {}
    if record:
        holders = [k for k, v in nodes if "light" not in v and "mesh" not in v]
        for i in range(draw(st.integers(0, 3))):
            k = draw(st.sampled_from(holders))
            stem = draw(st.sampled_from(["rec-%d" % i, "r.%d" % i, "%s-lost" % k, "%s-top" % k]))
            recorders[stem] = draw(recorder(k, k == "world"))
    doc = {"version": "1.0", "nodes": dict(nodes)}
    if comps or draw(st.booleans()):
        doc["components"] = comps
    if recorders:
        doc["recorders"] = recorders
    keys = draw(st.permutations(list(doc)))
    return {"doc": [[k, [[a, b] for a, b in doc[k].items()] if isinstance(doc[k], dict) else doc[k]] for k in keys],
            "files": files, "style": draw(st.sampled_from(["block", "mixed", "flow"]))}


# --------------------------------------------------------------------- writing
def plain(case):
    """The document as nested dicts (cases keep its order in lists, which JSON with sorted keys would lose)."""
    return {k: {a: b for a, b in v} if isinstance(v, list) else v for k, v in case["doc"]}


def mesh_arrays(f):
    h = f["half"]
    if f["stl"] == "tetra":
        s = h / math.sqrt(3)
        V = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], float) * s
        F = np.array([[0, 1, 2], [0, 3, 1], [0, 2, 3], [1, 3, 2]])
    else:
        s = np.array([1, 0.8, 0.5]) * h / math.sqrt(1.89)
        V = np.array([[i, j, k] for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)], float) * s
        F = np.array([[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6],
                      [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]])
    V = np.round(V, 5)
    return V, F


def stl(f):
    V, F = mesh_arrays(f)
    out = ["solid part"]
    for a, b, c in V[F]:
        n = np.cross(b - a, c - a)
        n = n / np.linalg.norm(n)
        out.append("facet normal %.6f %.6f %.6f\n outer loop" % tuple(n))
        out += ["  vertex %.5f %.5f %.5f" % tuple(p) for p in (a, b, c)]
        out.append(" endloop\nendfacet")
    return "\n".join(out + ["endsolid part", ""])


def completed(value, folder):
    """Absolute file names, now that the folder is known."""
    if isinstance(value, dict):
        return {k: (os.path.join(folder, v[2:]) if k == "file" and isinstance(v, str) and v.startswith("@/")
                    else completed(v, folder)) for k, v in value.items()}
    if isinstance(value, list):
        return [completed(v, folder) for v in value]
    return value


def write_files(case, folder):
    for name, f in case["files"].items():
        path = os.path.join(folder, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fp:
            if "stl" in f:
                fp.write(stl(f))
            else:
                fp.write(",".join(f["header"]) + "\n")
                for i, (x, y) in enumerate(zip(f["csv"]["x"], f["csv"]["y"])):
                    fp.write("%d,%r,%r\n" % (i, x, y))


def text(case, folder):
    flow = {"block": False, "mixed": None, "flow": True}[case["style"]]
    return yaml.safe_dump(completed(plain(case), folder), sort_keys=False, default_flow_style=flow)


def write(case, folder, name="scene.yml"):
    write_files(case, folder)
    path = os.path.join(folder, name)
    with open(path, "w") as fp:
        fp.write(text(case, folder))
    return path


# ------------------------------------------------------------------- reference
def shortest(d):
    """Rotation (3x3) that turns +z along d by the shortest way; None if every half turn about a normal will do."""
    if not any(d):
        return None
    d = np.array(d, float) / np.linalg.norm(d)
    axis = np.cross([0, 0, 1.0], d)
    s = np.linalg.norm(axis)
    if s < 1e-12:
        return np.eye(3) if d[2] > 0 else None
    return geom.rodrigues(math.atan2(s, d[2]), axis / s)


def spectrum_table(case, s):
    if "file" in s:
        name = os.path.normpath(s["file"][2:] if s["file"].startswith("@/") else s["file"])
        t = case["files"][name]["csv"]
        return np.array([t["x"], t["y"]], float).T
    from pvtrace.data import fluro_red, lumogen_f_red_305

    m = {"lumogen-f-red-305": lumogen_f_red_305, "fluro-red": fluro_red}[s["name"]]
    r = s["range"]
    k = int(math.ceil(round((r["max"] - r["min"]) / r["spacing"], 9)))       # the first at or beyond the maximum
    x = np.array([r["min"] + i * r["spacing"] for i in range(k + 1)], float)
    return x, m


def curve(case, s, which):
    t = spectrum_table(case, s)
    if isinstance(t, tuple):
        x, m = t
        return np.column_stack((x, getattr(m, which)(x)))
    return t


def attenuation(case, spec):
    """What the coefficient of a component should be: a number or a table."""
    c, s = spec.get("coefficient"), spec.get("spectrum")
    if s is None:
        return float(c)
    t = np.array(curve(case, s, "absorption"), float)
    if c is not None:
        t[:, 1] = t[:, 1] / t[:, 1].max() * c
    return t


def build_phase(p):
    from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic, lambertian

    if p is None or p == "isotropic" or "isotropic" in p:
        return isotropic
    if p == "lambertian" or "lambertian" in p:
        return lambertian
    if "cone" in p:
        return Cone(math.radians(float(p["cone"]["half-angle"])))
    return HenyeyGreenstein(float(p["henyey-greenstein"]["g"]))


def build_component(case, name, spec):
    from pvtrace import Absorber, Luminophore, Scatterer

    (kind, body), = [(k, v) for k, v in spec.items() if k != "builtin"]
    hist = body.get("hist", False)
    if kind == "absorber":
        return Absorber(attenuation(case, body), name=name, hist=hist)
    if kind == "scatterer":
        return Scatterer(attenuation(case, body), name=name, hist=hist, quantum_yield=body.get("quantum-yield", 1.0),
                         phase_function=build_phase(body.get("phase-function")))
    e = body["emission"]
    return Luminophore(attenuation(case, body["absorption"]), emission=np.array(curve(case, e["spectrum"], "emission"),
                                                                             float),
                       name=name, hist=hist, quantum_yield=e.get("quantum-yield", 1.0),
                       phase_function=build_phase(e.get("phase-function")))


def build_light(case, name, spec):
    from pvtrace import Distribution, Light
    from pvtrace.light import light as lm

    m = spec.get("mask") or {}
    w = m.get("wavelength", spec.get("wavelength"))
    if isinstance(w, dict):
        if "nanometers" in w:
            w = w["nanometers"]
        else:
            t = curve(case, w["spectrum"], "absorption")
            w = lm.SpectrumWavelengthMask(Distribution(t[:, 0], t[:, 1]))
    if isinstance(w, (int, float)):
        w = lm.ConstantWavelengthMask(float(w))
    p = m.get("position")
    if isinstance(p, list):
        point = tuple(float(c) for c in p)
        p = lambda: point
    elif p:
        p = (lm.RectangularMask(*p["rect"]) if "rect" in p else lm.CubeMask(*p["cube"]) if "cube" in p
             else lm.CircularMask(p["circle"]))
    d = m.get("direction")
    if isinstance(d, list):
        unit = tuple(float(c) for c in np.array(d, float) / np.linalg.norm(d))
        d = lambda: unit
    elif d is not None:
        d = build_phase(d)
    return Light(wavelength=w, position=p, direction=d, name=name)


def build_shape(case, n, material, folder):
    from pvtrace import Box, Cylinder, Mesh, Sphere

    if "box" in n:
        return Box(tuple(float(c) for c in n["box"]["size"]), material=material)
    if "sphere" in n:
        return Sphere(float(n["sphere"]["radius"]), material=material)
    if "cylinder" in n:
        return Cylinder(float(n["cylinder"]["length"]), float(n["cylinder"]["radius"]), material=material)
    import trimesh

    return Mesh(trimesh.load(os.path.join(folder, n["mesh"]["file"])), material=material)


def reference(case, folder):
    """The scene the document describes, its nodes, {node name: (location, rotation)} in the parent (rotation None
    where the shortest turn is not unique) and its components."""
    from pvtrace import Material, Node, Scene

    doc = plain(case)
    comps = {k: build_component(case, k, v) for k, v in (doc.get("components") or {}).items()}
    nodes, poses = {}, {}
    for name, n in doc["nodes"].items():
        if "light" in n:
            nodes[name] = Node(name=name, light=build_light(case, name, n["light"]))
        else:
            body = n[[k for k in ("box", "sphere", "cylinder", "mesh") if k in n][0]]
            m = body["material"]
            material = Material(refractive_index=float(m["refractive-index"]),
                                components=[comps[c] for c in m.get("components", [])])
            nodes[name] = Node(name=name, geometry=build_shape(case, n, material, folder))
    for name, n in doc["nodes"].items():
        if name != "world":
            nodes[name].parent = nodes[n.get("parent") or "world"]
        R = shortest(n["direction"]) if n.get("direction") else np.eye(3)
        poses[name] = (np.array(n.get("location") or [0, 0, 0], float), R)
        M = np.eye(4)
        M[:3, 3] = poses[name][0]
        M[:3, :3] = np.diag([1.0, -1.0, -1.0]) if R is None else R
        if name != "world":
            nodes[name].pose = M
    return Scene(nodes["world"]), nodes, poses, comps


def recorders(case):
    """{name: what the recorder should be}, the automatic ones included; facets in the frame of the node."""
    doc = plain(case)
    out = {}
    for name, r in (doc.get("recorders") or {}).items():
        out[name] = dict(r, auto=False)
    for node, n in doc["nodes"].items():
        if not n.get("record"):
            continue
        lost = {"node": node, "event": "lost", "auto": True, "histograms": {"wavelength": None}}
        out.setdefault(node + "-lost", lost)
        if "box" in n:
            size = [float(c) for c in n["box"]["size"]]
            for label, axis, sign in (("top", 2, 1), ("bottom", 2, -1), ("east", 0, 1), ("west", 0, -1),
                                      ("north", 1, 1), ("south", 1, -1)):
                facet = [0.0, 0.0, 0.0]
                facet[axis] = float(sign)
                u, v = [i for i in range(3) if i != axis]
                out.setdefault("%s-%s" % (node, label), {
                    "node": node, "event": "escaping", "auto": True, "local_facet": facet,
                    "histograms": {"wavelength": None, "angle": None,
                                   "position": ["xyz"[u], "xyz"[v], [-size[u] / 2, size[u] / 2, None],
                                                [-size[v] / 2, size[v] / 2, None]]}})
        else:
            out.setdefault(node + "-escaping", {"node": node, "event": "escaping", "auto": True,
                                                "histograms": {"wavelength": None, "angle": None}})
    return out
