"""Scene specifications (plain JSON), how to generate them, and how to build
the pvtrace scene they describe."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import geom
from harness.gen import axis_angle, lognum, num, unit_vector

GRID = [300.0, 1000.0]
INDICES = [1.0, 1.33, 1.5, 1.5, 1.7, 2.1, 3.4]


# ---------------------------------------------------------------- generation
@st.composite
def spectrum(draw, positive=False, top=3.0):
    """x over [300, 1000], uniform or uneven spacing, y >= 0 with a bump."""
    k = draw(st.integers(2, 9))
    if draw(st.booleans()):
        x = [300.0 + 700.0 * i / (k - 1) for i in range(k)]
    else:
        w = [draw(num(0.2, 3.0)) for _ in range(k - 1)]
        s = sum(w)
        x = [300.0]
        for v in w:
            x.append(x[-1] + 700.0 * v / s)
        x[-1] = 1000.0
    lo = 0.05 if positive else 0.0
    y = [draw(num(lo, top)) for _ in range(k)]
    if not positive and draw(st.integers(0, 3)) == 0:
        y[draw(st.integers(0, k - 1))] = 0.0
    if max(y) <= 0:
        y[0] = top
    return {"x": x, "y": y}


@st.composite
def phase(draw, hg=True):
    k = draw(st.integers(0, 5))
    if k <= 1:
        return None
    if k == 2:
        return "isotropic"
    if k == 3 and hg:
        return {"hg": draw(st.one_of(num(-0.95, 0.95), st.sampled_from([0.0, 0.5, -0.9])))}
    return {"cone": draw(st.one_of(num(0.05, math.pi / 2), st.just(math.pi / 2)))}


@st.composite
def component(draw, name, kinds=("absorber", "reactor", "scatterer", "luminophore"), strong=False):
    kind = draw(st.sampled_from(kinds))
    c = {"type": kind, "name": name}
    if strong:
        c["coef"] = draw(st.one_of(lognum(0.5, 8.0), spectrum(positive=True, top=8.0)))
    elif draw(st.booleans()):
        c["coef"] = draw(st.one_of(lognum(0.02, 6.0), st.sampled_from([0.0, 1.0, 0.3])))
    else:
        c["coef"] = draw(spectrum())
    if kind in ("scatterer", "luminophore"):
        mode = draw(st.integers(0, 4))
        if mode == 0:
            c["tau_rad"] = draw(lognum(1e-10, 1e-7))
            c["tau_nr"] = draw(lognum(1e-10, 1e-7))
        else:
            c["qy"] = draw(st.one_of(st.sampled_from([1.0, 1.0, 0.0, 0.5]), num(0, 1)))
            if strong:
                c["qy"] = 1.0 - 0.6 * c["qy"]
            if mode == 1:
                c["tau_rad"] = draw(lognum(1e-10, 1e-7))
            if mode == 2:
                c["tau_nr"] = draw(lognum(1e-10, 1e-7))
        c["phase"] = draw(phase())
    elif kind == "absorber" and draw(st.booleans()):
        c["tau_nr"] = draw(lognum(1e-10, 1e-7))
    if kind == "luminophore":
        c["emission"] = draw(spectrum(positive=True))
    return c


@st.composite
def light(draw, name, spread):
    L = {"name": name, "wavelength": None, "position": None, "direction": None}
    k = draw(st.integers(0, 3))
    if k == 1:
        L["wavelength"] = draw(num(330, 960))
    elif k >= 2:
        lo = draw(num(330, 700))
        n = draw(st.integers(2, 6))
        step = draw(num(5, 50))
        y = [draw(num(0.0, 2.0)) for _ in range(n)]
        if max(y) == 0:
            y[0] = 1.0
        L["wavelength"] = {"spectrum": {"x": [lo + i * step for i in range(n)], "y": y}}
    k = draw(st.integers(0, 4))
    s = spread
    if k == 1:
        L["position"] = {"rect": [draw(num(0.05, 1)) * s, draw(num(0.05, 1)) * s]}
    elif k == 2:
        L["position"] = {"circle": draw(num(0.05, 1)) * s}
    elif k >= 3:
        L["position"] = {"cube": [draw(num(0.05, 1)) * s for _ in range(3)]}
    k = draw(st.integers(0, 6))
    if k == 1:
        L["direction"] = "lambertian"
    elif k == 2:
        L["direction"] = {"cone": draw(num(0.05, math.pi / 2))}
    elif k == 3:
        L["direction"] = {"hg": draw(num(-0.9, 0.9))}
    elif k >= 4:
        L["direction"] = "isotropic"
    return L


@st.composite
def shape(draw, half, kinds, fixed_box=None):
    """A shape that fits (unrotated) in a box of half sizes `half`."""
    kind = draw(st.sampled_from(kinds))
    return _fit(draw, kind, half)


def _fit(draw, kind, half):
    f = lambda: draw(num(0.35, 0.92))
    if kind == "box":
        return {"type": "box", "size": [2 * h * f() for h in half]}
    m = min(half)
    if kind == "sphere":
        return {"type": "sphere", "radius": m * f()}
    if kind == "cylinder":
        return {"type": "cylinder", "length": 2 * half[2] * f(),
                "radius": min(half[0], half[1]) * f()}
    which = draw(st.sampled_from(["prism", "hull", "ell"]))
    return mesh_shape(which, [h * f() for h in half], draw(st.integers(3, 7)),
                      draw(num(0.3, 0.7)))


def mesh_shape(which, half, k=5, q=0.5):
    """Watertight meshes with outward winding, inside a box of half sizes."""
    hx, hy, hz = half
    if which == "prism":           # convex k-gon prism
        poly = [(hx * math.cos(2 * math.pi * i / k + 0.3),
                 hy * math.sin(2 * math.pi * i / k + 0.3)) for i in range(k)]
    elif which == "ell":           # concave L-shaped prism
        # The lower left corner sees the whole polygon, so a fan works
        poly = [(-hx, -hy), (hx, -hy), (hx, -hy + 2 * hy * q),
                (-hx + 2 * hx * q, -hy + 2 * hy * q), (-hx + 2 * hx * q, hy), (-hx, hy)]
    else:                          # octahedron-like hull
        V = [(hx, 0, 0), (-hx, 0, 0), (0, hy, 0), (0, -hy, 0), (0, 0, hz), (0, 0, -hz)]
        F = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4),
             (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]
        return {"type": "mesh", "kind": which, "vertices": [list(map(float, v)) for v in V],
                "faces": [list(f) for f in F]}
    n = len(poly)
    V = [[x, y, -hz] for x, y in poly] + [[x, y, hz] for x, y in poly]
    F = []
    for i in range(1, n - 1):
        F.append([0, i + 1, i])
        F.append([n, n + i, n + i + 1])
    for i in range(n):
        j = (i + 1) % n
        F.append([i, j, n + j])
        F.append([i, n + j, n + i])
    return {"type": "mesh", "kind": which, "vertices": V, "faces": F}


def inner_box(shape_spec):
    """Half sizes of an axis-aligned box well inside the shape, or None."""
    t = shape_spec["type"]
    if t == "box":
        return [0.5 * s * 0.94 for s in shape_spec["size"]]
    if t == "sphere":
        return [shape_spec["radius"] / math.sqrt(3) * 0.94] * 3
    if t == "cylinder":
        a = shape_spec["radius"] / math.sqrt(2) * 0.94
        return [a, a, 0.5 * shape_spec["length"] * 0.94]
    return None


class Options:
    def __init__(self, kinds=("box", "sphere", "cylinder"), max_nodes=6, components=True,
                 component_kinds=("absorber", "reactor", "scatterer", "luminophore"),
                 surfaces=("fresnel", "fresnel", "fresnel", "null"), max_lights=3,
                 max_components=3, rotate=True, touching=True, world_kinds=("box", "sphere", "cylinder"),
                 min_solids=1, dense_components=False, isotropic_only=False, lights_inside=False, strong=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]


@st.composite
def scene(draw, opt=None):
    opt = opt or Options()
    W = draw(num(2.0, 8.0))
    wk = draw(st.sampled_from(opt.world_kinds))
    world_shape = {
        "box": {"type": "box", "size": [2 * W, 2 * W * 1.1, 2 * W * 1.2]},
        "sphere": {"type": "sphere", "radius": 2 * W},
        "cylinder": {"type": "cylinder", "length": 3 * W, "radius": 1.8 * W},
    }[wk]
    nodes = [{"name": "world", "parent": None, "location": [0.0, 0.0, 0.0], "rotations": [],
              "shape": world_shape, "n": draw(st.sampled_from([1.0, 1.0, 1.0, 1.33, 1.6])),
              "surface": "fresnel", "components": []}]
    counter = {"c": 0}
    all_components = []

    def material(node):
        node["n"] = draw(st.one_of(st.sampled_from(INDICES), num(1.0, 2.5)))
        node["surface"] = draw(st.sampled_from(opt.surfaces))
        comps = []
        if opt.components:
            k = draw(st.integers(1 if opt.dense_components else 0, opt.max_components))
            for _ in range(k):
                if all_components and draw(st.integers(0, 7)) == 0:
                    pick = draw(st.sampled_from(all_components))
                    if pick["name"] not in [c["name"] for c in comps]:
                        comps.append(pick)
                        continue
                c = draw(component("comp-%d" % counter["c"], kinds=opt.component_kinds, strong=opt.strong))
                if opt.isotropic_only:
                    c.pop("phase", None)
                counter["c"] += 1
                comps.append(c)
                all_components.append(c)
        node["components"] = comps

    solids = {"n": 0}

    def add_solid(parent, loc, rot, shp):
        node = {"name": "n%d" % len(nodes), "parent": parent, "location": list(loc),
                "rotations": rot, "shape": shp}
        material(node)
        nodes.append(node)
        solids["n"] += 1
        return len(nodes) - 1

    def add_group(parent, loc, rot):
        nodes.append({"name": "n%d" % len(nodes), "parent": parent, "location": list(loc),
                      "rotations": rot, "shape": None, "components": []})
        return len(nodes) - 1

    def fill(parent, centre, half, depth):
        if solids["n"] >= opt.max_nodes or depth > 3 or half is None or min(half) < 0.04:
            return
        axis = draw(st.integers(0, 2))
        k = draw(st.integers(1, 3))
        cuts = [0.0]
        for _ in range(k):
            cuts.append(cuts[-1] + draw(num(0.5, 1.5)))
        tot = cuts[-1]
        cells = []
        for i in range(k):
            a = -half[axis] + 2 * half[axis] * cuts[i] / tot
            b = -half[axis] + 2 * half[axis] * cuts[i + 1] / tot
            c = list(centre)
            c[axis] += 0.5 * (a + b)
            h = list(half)
            h[axis] = 0.5 * (b - a)
            cells.append((c, h))
        flush = opt.touching and k > 1 and draw(st.integers(0, 2)) == 0
        for i, (c, h) in enumerate(cells):
            if solids["n"] >= opt.max_nodes:
                return
            mode = draw(st.integers(0, 5))
            if flush:
                size = [2 * v * draw(num(0.5, 0.95)) for v in h]
                size[axis] = 2 * h[axis]
                shp = {"type": "box", "size": size}
                idx = add_solid(parent, c, [], shp)
                fill(idx, [0, 0, 0], inner_box(shp), depth + 1)
                continue
            if mode == 0 and i > 0:
                continue
            if mode in (1, 2) or not opt.rotate:
                kind = draw(st.sampled_from(opt.kinds))
                shp = _fit(draw, kind, h)
                idx = add_solid(parent, c, [], shp)
            else:
                # rotated: must fit in a ball
                R = min(h) * 0.9
                kind = draw(st.sampled_from(opt.kinds))
                hh = [R / math.sqrt(3)] * 3
                if kind == "box" or kind == "mesh":
                    w = [draw(num(0.25, 1)) for _ in range(3)]
                    s = math.sqrt(sum(v * v for v in w))
                    hh = [R * v / s for v in w]
                if kind == "sphere":
                    hh = [R] * 3
                if kind == "cylinder":
                    ang = draw(num(0.3, 1.2))
                    hh = [R * math.cos(ang), R * math.cos(ang), R * math.sin(ang)]
                shp = _fit(draw, kind, hh)
                rot = [draw(axis_angle()) for _ in range(draw(st.integers(1, 2)))]
                if mode == 3:
                    g = add_group(parent, c, [draw(axis_angle())])
                    idx = add_solid(g, [0.0, 0.0, 0.0], rot, shp)
                elif mode == 4:
                    # a displaced group node whose child undoes the displacement
                    off = [draw(num(-1, 1)) for _ in range(3)]
                    g = add_group(parent, [a + b for a, b in zip(c, off)], [])
                    idx = add_solid(g, [-v for v in off], rot, shp)
                else:
                    idx = add_solid(parent, c, rot, shp)
            fill(idx, [0, 0, 0], inner_box(shp), depth + 1)

    fill(0, [0, 0, 0], [v * 0.8 for v in inner_box(world_shape)], 0)
    if solids["n"] < opt.min_solids:
        h = [v * 0.5 for v in inner_box(world_shape)]
        add_solid(0, [0, 0, 0], [], _fit(draw, draw(st.sampled_from(opt.kinds)), h))
    if opt.components and draw(st.integers(0, 3)) == 0:        # air that absorbs or scatters a little
        for k in range(draw(st.integers(1, 2))):
            c = draw(component("air-%d" % k, kinds=opt.component_kinds))
            c["coef"] = draw(st.one_of(lognum(0.005, 0.25), spectrum(positive=True, top=0.25)))
            if opt.isotropic_only:
                c.pop("phase", None)
            nodes[0]["components"].append(c)
        if all_components and draw(st.integers(0, 5)) == 0:
            nodes[0]["components"].append(draw(st.sampled_from(all_components)))

    tree = draw(st.sampled_from(["nested", "nested", "nested", "nested", "flat", "flat", "tangled"]))
    spec = {"nodes": nodes, "flat": tree == "flat"}
    if tree == "flat":
        flatten(spec)
    elif tree == "tangled":
        tangle(spec, [draw(st.integers(0, 11)) for _ in nodes])

    # Lights: children of any solid or group, or of the world
    n_lights = draw(st.integers(1, opt.max_lights))
    model = Model(spec)
    wh = inner_box(world_shape)
    for i in range(n_lights):
        hosts = list(range(len(nodes)))
        if opt.lights_inside:
            hosts = [j for j in hosts if j and nodes[j].get("shape")
                     and inner_box(nodes[j]["shape"])] or hosts
        host = draw(st.sampled_from(hosts))
        shp = nodes[host].get("shape")
        box = inner_box(shp) if shp and host != 0 else None
        if box is not None:
            # inside that solid (maybe inside a child of it)
            loc = [draw(num(-0.6, 0.6)) * b for b in box]
            spread = 0.3 * min(box)
            parent = host
        elif host != 0 and draw(st.booleans()):
            parent, loc, spread = host, [0.0, 0.0, 0.0], 0.02
        else:
            loc = [draw(num(-0.79, 0.79)) * b for b in wh]
            spread = draw(num(0.01, 0.15)) * min(wh)
            parent = 0
        rot = [draw(axis_angle())] if draw(st.integers(0, 3)) else []
        if parent == 0 and draw(st.booleans()):
            # aim roughly at some solid
            targets = [j for j in range(1, len(nodes)) if nodes[j].get("shape")]
            if targets:
                t = model.l2w[draw(st.sampled_from(targets))][:3, 3] - np.array(loc)
                if np.linalg.norm(t) > 1e-6:
                    rot = aim(t / np.linalg.norm(t))
        nodes.append({"name": "L%d" % i, "parent": parent, "location": loc,
                      "rotations": rot, "shape": None, "components": [],
                      "light": draw(light("light-%d" % i, spread))})
    return spec


def aim(v):
    """Rotation list taking +z to v."""
    z = max(-1.0, min(1.0, float(v[2])))
    axis = [-float(v[1]), float(v[0]), 0.0]
    if math.hypot(axis[0], axis[1]) < 1e-9:
        axis = [1.0, 0.0, 0.0]
    return [[math.acos(z), axis]]


def flatten(spec):
    """Re-parent every solid to the world, keeping where it is in the world."""
    M = Model(spec)
    for i, node in enumerate(spec["nodes"]):
        if i == 0:
            continue
        m = M.l2w[i]
        node["parent"] = 0
        node["location"] = [float(v) for v in m[:3, 3]]
        node["rotations"] = matrix_rotations(m[:3, :3])


def tangle(spec, picks):
    """Re-parent every solid to any earlier node (which need not enclose it),
    keeping where it is in the world."""
    M = Model(spec)
    for i, node in enumerate(spec["nodes"]):
        if i == 0 or "light" in node:
            continue
        node["parent"] = picks[i % len(picks)] % i
        m = geom.rigid_inverse(M.l2w[node["parent"]]) @ M.l2w[i]
        node["location"] = [float(v) for v in m[:3, 3]]
        node["rotations"] = matrix_rotations(m[:3, :3])


def matrix_rotations(R):
    """R as a list of one axis-angle rotation, by way of its quaternion."""
    t = np.array([1 + R[0, 0] + R[1, 1] + R[2, 2], 1 + R[0, 0] - R[1, 1] - R[2, 2],
                  1 - R[0, 0] + R[1, 1] - R[2, 2], 1 - R[0, 0] - R[1, 1] + R[2, 2]])
    a = np.array([[t[0], R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]],
                  [R[2, 1] - R[1, 2], t[1], R[0, 1] + R[1, 0], R[0, 2] + R[2, 0]],
                  [R[0, 2] - R[2, 0], R[0, 1] + R[1, 0], t[2], R[1, 2] + R[2, 1]],
                  [R[1, 0] - R[0, 1], R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], t[3]]])
    q = a[int(np.argmax(t))]
    q = q / np.linalg.norm(q)
    n = float(np.linalg.norm(q[1:]))
    if n == 0.0:
        return []
    return [[2 * math.atan2(n, float(q[0])), [float(v) / n for v in q[1:]]]]


# -------------------------------------------------------------- the reference
class Model:
    """What the spec means, computed without pvtrace."""

    def __init__(self, spec):
        self.spec = spec
        nodes = spec["nodes"]
        self.l2w = []
        for node in nodes:
            m = geom.rigid(node["location"], node["rotations"])
            if node["parent"] is not None:
                m = self.l2w[node["parent"]] @ m
            else:
                m = np.eye(4)
            self.l2w.append(m)
        self.solids = [i for i, n in enumerate(nodes) if n.get("shape")]
        self.shapes = {i: geom.Shape(nodes[i]["shape"]) for i in self.solids}
        self.w2l = {i: geom.rigid_inverse(self.l2w[i]) for i in self.solids}
        self.names = [n["name"] for n in nodes]
        self.index = {n: i for i, n in enumerate(self.names)}
        self.volume = {i: volume(nodes[i]["shape"]) for i in self.solids}
        self.comp = {}
        for node in nodes:
            for c in node.get("components", []):
                self.comp[c["name"]] = c

    def local(self, i, p):
        w = self.w2l[i]
        return np.asarray(p) @ w[:3, :3].T + w[:3, 3]

    def local_vec(self, i, v):
        return np.asarray(v) @ self.w2l[i][:3, :3].T

    def world_vec(self, i, v):
        return np.asarray(v) @ self.l2w[i][:3, :3].T

    def innermost(self, p):
        """Index of the innermost solid at each point (-1 outside), with margin."""
        p = np.asarray(p)
        best = np.full(len(p), -1)
        vol = np.full(len(p), np.inf)
        margin = np.full(len(p), np.inf)
        for i in self.solids:
            c = self.shapes[i].clearance(self.local(i, p))
            margin = np.minimum(margin, np.abs(c))
            inside = (c > 0) & (self.volume[i] < vol)
            best[inside] = i
            vol[inside] = self.volume[i]
        return best, margin


def volume(s):
    t = s["type"]
    if t == "box":
        return float(np.prod(s["size"]))
    if t == "sphere":
        return 4 / 3 * math.pi * s["radius"] ** 3
    if t == "cylinder":
        return math.pi * s["radius"] ** 2 * s["length"]
    V = np.asarray(s["vertices"], float)
    F = np.asarray(s["faces"], int)
    return float(abs(np.einsum("ij,ij->i", V[F[:, 0]], np.cross(V[F[:, 1]], V[F[:, 2]])).sum() / 6))


def coefficient(c, wavelength):
    """Reference attenuation coefficient of a component spec."""
    v = c["coef"]
    if isinstance(v, dict):
        return np.interp(wavelength, v["x"], v["y"])
    return np.full(np.shape(wavelength), float(v))


def emission_cdf(c):
    x = np.asarray(c["emission"]["x"], float)
    y = np.asarray(c["emission"]["y"], float)
    cdf = np.concatenate([[0.0], np.cumsum(0.5 * (y[:-1] + y[1:]) * np.diff(x))])
    return x, cdf / cdf[-1]


def quantum_yield(c):
    if c["type"] in ("absorber", "reactor"):
        return 0.0
    if c.get("tau_rad") is not None and c.get("tau_nr") is not None:
        return c["tau_nr"] / (c["tau_nr"] + c["tau_rad"])
    return c["qy"]


# ------------------------------------------------------------------ building
def build_phase(p):
    from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic, lambertian

    if p is None:
        return None
    if p == "isotropic":
        return isotropic
    if p == "lambertian":
        return lambertian
    if "hg" in p:
        return HenyeyGreenstein(p["hg"])
    return Cone(p["cone"])


def build_component(c):
    from pvtrace import Absorber, Luminophore, Reactor, Scatterer

    coef = c["coef"]
    if isinstance(coef, dict):
        coef = np.column_stack((coef["x"], coef["y"]))
    else:
        coef = float(coef)
    t = c["type"]
    if t == "absorber":
        return Absorber(coef, tau_nr=c.get("tau_nr"), name=c["name"])
    if t == "reactor":
        return Reactor(coef, name=c["name"])
    kw = dict(tau_rad=c.get("tau_rad"), tau_nr=c.get("tau_nr"), name=c["name"],
              phase_function=build_phase(c.get("phase")))
    if "qy" in c:
        kw["quantum_yield"] = c["qy"]
    if t == "scatterer":
        return Scatterer(coef, **kw)
    e = c["emission"]
    return Luminophore(coef, emission=np.column_stack((e["x"], e["y"])), **kw)


def build_shape(s, material):
    from pvtrace import Box, Cylinder, Mesh, Sphere

    if s["type"] == "box":
        return Box(tuple(s["size"]), material=material)
    if s["type"] == "sphere":
        return Sphere(radius=s["radius"], material=material)
    if s["type"] == "cylinder":
        return Cylinder(length=s["length"], radius=s["radius"], material=material)
    import trimesh

    tm = trimesh.Trimesh(vertices=np.array(s["vertices"], float),
                         faces=np.array(s["faces"], int), process=False)
    return Mesh(tm, material=material)


class ConstantSurface:
    """Made by surface_delegate: fixed reflectivity, specular, undeviated."""


def surface_delegate(s):
    from pvtrace.material.surface import (FresnelSurfaceDelegate, NullSurfaceDelegate,
                                          SurfaceDelegate)

    if s == "fresnel":
        return FresnelSurfaceDelegate()
    if s == "null":
        return NullSurfaceDelegate()

    class Constant(FresnelSurfaceDelegate):
        def reflectivity(self, surface, ray, geometry, container, adjacent):
            return float(s["constant"])

        def transmitted_direction(self, surface, ray, geometry, container, adjacent):
            return tuple(ray.direction)

    return Constant()


def build_light(L):
    from pvtrace import Distribution, Light
    from pvtrace.light import light as lm

    w = L["wavelength"]
    if w is None:
        wav = None
    elif isinstance(w, dict):
        s = w["spectrum"]
        wav = lm.SpectrumWavelengthMask(Distribution(np.array(s["x"]), np.array(s["y"])))
    else:
        wav = lm.ConstantWavelengthMask(w)
    p = L["position"]
    if p is None:
        pos = None
    elif "rect" in p:
        pos = lm.RectangularMask(*p["rect"])
    elif "circle" in p:
        pos = lm.CircularMask(p["circle"])
    else:
        pos = lm.CubeMask(*p["cube"])
    return Light(wavelength=wav, position=pos, direction=build_phase(L["direction"]),
                 name=L["name"])


def build_recorder(r):
    from pvtrace.engine import Heatmap, Histogram, Recorder

    hists = []
    for h in r.get("histograms", []):
        if "prop_b" in h:
            hists.append(Heatmap(h["prop"], h["prop_b"], tuple(h["range"]), tuple(h["range_b"])))
        else:
            hists.append(Histogram(h["prop"], *h["range"]))
    kw = {}
    if "atol" in r:
        kw["atol"] = r["atol"]
    return Recorder(r["name"], event=r["event"], facet=None if r.get("facet") is None
                    else tuple(r["facet"]), histograms=hists, **kw)


def build(spec, recorders=True):
    from pvtrace import Material, Node, Scene
    from pvtrace.material.surface import Surface

    nodes = []
    made = {}
    for i, n in enumerate(spec["nodes"]):
        geometry = None
        if n.get("shape"):
            comps = []
            for c in n["components"]:
                key = c.get("key", c["name"])
                if key not in made:
                    made[key] = build_component(c)
                comps.append(made[key])
            material = Material(refractive_index=n["n"],
                                surface=Surface(delegate=surface_delegate(n["surface"])),
                                components=comps)
            geometry = build_shape(n["shape"], material)
        light_obj = build_light(n["light"]) if n.get("light") else None
        node = Node(name=n["name"], parent=None if n["parent"] is None else nodes[n["parent"]],
                    geometry=geometry, light=light_obj,
                    recorders=[build_recorder(r) for r in n.get("recorders", [])]
                    if recorders else None)
        if i > 0:
            node.pose = geom.rigid(n["location"], n["rotations"])
        nodes.append(node)
    return Scene(nodes[0])


def scaled(spec, s):
    """The same scene with every length multiplied by s."""
    import copy

    out = copy.deepcopy(spec)

    def comp(c):
        c = dict(c)
        v = c["coef"]
        c["coef"] = {"x": v["x"], "y": [y / s for y in v["y"]]} if isinstance(v, dict) else v / s
        return c

    for n in out["nodes"]:
        n["location"] = [v * s for v in n["location"]]
        b = n.get("shape")
        if b:
            for k in ("radius", "length"):
                if k in b:
                    b[k] *= s
            if "size" in b:
                b["size"] = [v * s for v in b["size"]]
            if "vertices" in b:
                b["vertices"] = [[v * s for v in p] for p in b["vertices"]]
        n["components"] = [comp(c) for c in n.get("components", [])]
        p = (n.get("light") or {}).get("position")
        if p:
            for k in p:
                p[k] = [v * s for v in p[k]] if isinstance(p[k], list) else p[k] * s
    return out
