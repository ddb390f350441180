"""C09: the engine traces a scene faithfully or says it cannot."""
import copy
import functools
import math

import numpy as np
from hypothesis import strategies as st

from harness import gen, oracle, scenes as sc, tallies, trace
from harness.core import Info, Part, Violation, require

ID = "C09"
RULE = ("A case is a generated scene with zero to three features the engine cannot trace, placed at generated "
        "nodes, and near misses it can. With any such feature compile_scene, simulate and simulate_stream must "
        "raise UnsupportedSceneError; without, they must accept the scene and trace it as the reference does. "
        "Either way the scene and its Python traces stay as they were. Evaluations are calls. "
        "Non-trivial: a rejected scene with its feature in a node other than the root, or an accepted scene with "
        "components or several nodes.")
ASSUMPTIONS = ["the pose of the root node has no effect and is not examined",
               "scale factors differ from one by at least a thousandth"]

SOLID = ["mesh", "geometry-subclass", "geometry-custom", "delegate", "delegate-custom", "surface-subclass",
         "material-subclass", "component-subclass", "component-custom", "phase", "hist-absorption",
         "hist-emission", "custom-spectrum", "scale", "no-material", "facet-on-volume", "not-a-recorder",
         "duplicate-recorders"]
SCENE = ["scale-light", "scale-group", "no-root-geometry", "too-many-nodes", "too-many-recorders",
         "recorder-nowhere", "shear-group"]
BENIGN = ["unit-scale", "full-nodes", "full-recorders", "none", "none", "none", "same-phase", "zero-component"]


@st.composite
def case(draw):
    opt = sc.Options(max_nodes=5, max_components=2)
    n = draw(st.sampled_from([0, 0, 1, 1, 1, 1, 2, 3]))
    feats = [{"kind": draw(st.sampled_from(SOLID + SOLID + SCENE)), "at": draw(st.integers(0, 30)),
              "v": draw(st.integers(0, 5)), "f": draw(gen.num(0.001, 3))} for _ in range(n)]
    return {"scene": draw(tallies.with_recorders(sc.scene(opt))), "features": feats,
            "benign": draw(st.sampled_from(BENIGN)), "seed": draw(gen.seeds),
            "first": draw(st.sampled_from(["compile", "simulate", "stream"]))}


def new_component(base, v):
    from pvtrace import Absorber, Luminophore, Reactor, Scatterer

    x = np.linspace(300, 1000, 5)
    em = np.column_stack((x, np.array([0.0, 1.0, 2.0, 1.0, 0.5])))
    return {0: lambda: base(Absorber)(0.4, name="extra"), 1: lambda: base(Reactor)(0.4, name="extra"),
            2: lambda: base(Scatterer)(0.4, name="extra"),
            3: lambda: base(Luminophore)(0.4, emission=em, name="extra")}[v % 4]()


def odd_phase(v, named):
    from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic, lambertian

    class HG(HenyeyGreenstein):
        def __call__(self):
            return (0.0, 0.0, 1.0)

    class Narrow(Cone):
        def __call__(self):
            return (0.0, 0.0, -1.0)

    def upwards():
        return (0.0, 0.0, 1.0)

    class Namesake:
        def __init__(self, g):
            self.g = self.theta_max = g

        def __call__(self):
            return (0.0, 1.0, 0.0)

    phase = [lambertian, lambda: (1.0, 0.0, 0.0), functools.partial(isotropic), HG(0.4), Narrow(0.3),
             Cone(0.3).__call__, upwards, Namesake(0.3), Namesake(0.4)][v]
    if named:               # like those the engine knows: what it does counts
        for cls in (HG, Narrow, Namesake):
            cls.__name__ = cls.__qualname__ = "Cone" if cls is Narrow or v == 7 else "HenyeyGreenstein"
        if v in (1, 6):
            phase.__name__ = phase.__qualname__ = "isotropic"
            phase.__module__ = isotropic.__module__
    return phase


def apply(scene, spec, feats):
    """Put the features into the built scene; the names of nodes they are in."""
    import pvtrace.geometry.geometry as gg
    from anytree import PreOrderIter
    from pvtrace import (Absorber, Box, Cylinder, Distribution, Luminophore, Material, Mesh, Node, Scatterer,
                         Sphere)
    from pvtrace.engine import Histogram, Recorder
    from pvtrace.material.component import Component
    from pvtrace.material.surface import (FresnelSurfaceDelegate, NullSurfaceDelegate, Surface,
                                          SurfaceDelegate)

    root = scene.root
    nodes = list(PreOrderIter(root))
    by_name = {n.name: n for n in nodes}
    where = []

    def solids():
        return [n for n in PreOrderIter(root) if n.geometry is not None]

    def rematerial(node, **kw):
        m = node.geometry.material
        d = dict(refractive_index=m.refractive_index, surface=m.surface, components=list(m.components))
        d.update(kw)
        node.geometry.material = (kw.pop("cls", None) or Material)(
            **{k: v for k, v in d.items() if k != "cls"})

    def add_component(node, c):
        rematerial(node, components=list(node.geometry.material.components) + [c])

    def scale(node, v, f):
        m = np.eye(4)
        if v == 0:
            m[:3, :3] *= 1 + f
        elif v == 1:
            m[:3, :3] /= 1 + f
        else:
            m[v % 3, v % 3] = 1 + f
        node.pose = node.pose @ m

    def group():
        """A new node without geometry between a solid or light node and its parent."""
        kids = [n for n in PreOrderIter(root)
                if n is not root and (n.geometry is not None or n.light is not None)]
        kid = kids[at % len(kids)]
        g = Node(name="between-%d" % len(where), parent=kid.parent)
        kid.parent = g
        return g

    for feat in feats:
        kind, at, v, f = feat["kind"], feat["at"], feat["v"], feat["f"]
        S = [n for n in solids() if n.geometry is not None and n.geometry.material is not None]
        if not S:
            continue
        node = S[at % len(S)]
        material = node.geometry.material
        if kind == "mesh":
            import trimesh

            node.geometry = Mesh(trimesh.creation.box((0.3, 0.4, 0.5)), material=material)
        elif kind == "geometry-subclass":
            base = [Box, Sphere, Cylinder][v % 3]

            class Odd(base):
                def normal(self, p):
                    return tuple(-x for x in super().normal(p))

            node.geometry = (Odd((1, 1, 1), material=material) if base is Box else
                             Odd(radius=0.5, material=material) if base is Sphere else
                             Odd(length=1.0, radius=0.4, material=material))
        elif kind == "geometry-custom":
            class Own(gg.Geometry):
                def __init__(self, inner):
                    self.inner = inner

                material = property(lambda self: self.inner.material,
                                    lambda self, m: setattr(self.inner, "material", m))

                def is_on_surface(self, p): return self.inner.is_on_surface(p)
                def contains(self, p): return self.inner.contains(p)
                def intersections(self, p, d): return self.inner.intersections(p, d)
                def normal(self, p): return self.inner.normal(p)
                def is_entering(self, p, d): return self.inner.is_entering(p, d)

            Own.__name__ = ["Own", "Box", "Sphere", "Cylinder", "Own", "Box"][v]
            node.geometry = Own(node.geometry)
        elif kind == "delegate":
            base = [FresnelSurfaceDelegate, NullSurfaceDelegate][v % 2]

            class Other(base):
                def reflectivity(self, *a):
                    return 0.25

            Other.__name__ = base.__name__
            rematerial(node, surface=Surface(delegate=Other()))
        elif kind == "delegate-custom":
            class Mirror(SurfaceDelegate):
                def reflectivity(self, *a): return 1.0
                def reflected_direction(self, surface, ray, geometry, container, adjacent):
                    return tuple(-x for x in ray.direction)
                def transmitted_direction(self, surface, ray, geometry, container, adjacent):
                    return ray.direction

            rematerial(node, surface=Surface(delegate=Mirror()))
        elif kind == "surface-subclass":
            class Rough(Surface):
                def is_reflected(self, *a, **k):
                    return False

            rematerial(node, surface=Rough(delegate=FresnelSurfaceDelegate()))
        elif kind == "material-subclass":
            class Dense(Material):
                def penetration_depth(self, wavelength):
                    return 0.1

            rematerial(node, cls=Dense)
        elif kind == "component-subclass":
            def base(cls):
                class Variant(cls):
                    def is_radiative(self, ray):
                        return True
                Variant.__name__ = cls.__name__
                return Variant

            add_component(node, new_component(base, v))
        elif kind == "component-custom":
            class Free(Component):
                quantum_yield, tau_rad, tau_nr = 0.0, None, None

                def coefficient(self, wavelength):
                    return 0.2

            add_component(node, Free(name="free"))
        elif kind == "phase":
            cls = [Scatterer, Luminophore][at % 2]
            kw = {"emission": np.array([[400.0, 1.0], [900.0, 1.0]])} if cls is Luminophore else {}
            add_component(node, cls(0.3, phase_function=odd_phase((v + 6 * at) % 9, f < 1.5), name="odd", **kw))
        elif kind in ("hist-absorption", "hist-emission"):
            x = np.linspace(300.0, 1000.0, 6)
            arr = np.column_stack((x, np.linspace(0.2, 0.8, 6)))
            if kind == "hist-absorption":
                c = (Absorber(arr, hist=True, name="hist") if v % 2 else Scatterer(arr, hist=True, name="hist"))
            else:
                c = Luminophore(0.3, emission=arr, name="hist")
                if not hasattr(c, "_ems_dist"):
                    continue
                c._ems_dist = Distribution(arr[:, 0], arr[:, 1], hist=True)
            add_component(node, c)
        elif kind == "custom-spectrum":
            class Line(Distribution):
                def sample(self, p): return 600.0 + 0 * p
                def __call__(self, x): return 0.5 + 0 * np.asarray(x)

            c = Luminophore(0.3, emission=np.array([[400.0, 1.0], [900.0, 1.0]]), name="line")
            d = Line(np.array([400.0, 900.0]), np.array([1.0, 1.0]))
            if not hasattr(c, "_ems_dist") or not hasattr(c, "_abs_dist"):
                continue
            if v % 2:
                c._ems_dist = d
            else:
                c._abs_dist = d
            add_component(node, c)
        elif kind == "scale":
            if node is root:
                continue
            scale(node, v, f)
        elif kind == "no-material":
            node.geometry = Box((0.5, 0.5, 0.5), material=None) if v % 2 else Sphere(radius=0.3, material=None)
        elif kind == "facet-on-volume":
            try:
                r = Recorder("facet-%d" % len(where), event=sorted(("lost", "reacted", "killed"))[v % 3],
                             facet=(0, 0, 1))
            except ValueError:
                continue
            node.recorders = list(node.recorders) + [r]
        elif kind == "not-a-recorder":
            class Look:
                name, event, facet, atol, histograms = "look", "entering", None, 1e-3, []

            node.recorders = list(node.recorders) + [[Look(), "top", None, Histogram("angle", 0, 1, 3),
                                                     {"event": "lost"}, 5][v]]
        elif kind == "duplicate-recorders":
            other = S[(at + v) % len(S)]
            node.recorders = list(node.recorders) + [Recorder("twice", event="entering")]
            other.recorders = list(other.recorders) + [Recorder("twice", event="lost" if v % 2 else "entering")]
        elif kind == "scale-light":
            lights = [n for n in PreOrderIter(root) if n.light is not None]
            scale(lights[at % len(lights)], v, f)
        elif kind == "scale-group":
            scale(group(), v, f)
        elif kind == "shear-group":
            m = np.eye(4)
            m[v % 3, (v + 1) % 3] = f
            g = group()
            g.pose = g.pose @ m
        elif kind == "no-root-geometry":
            root.geometry = None
        elif kind == "too-many-nodes":
            for k in range(129 - len(solids()) + v):
                Node(name="many-%d" % k, parent=node, geometry=Sphere(
                    radius=1e-3, material=Material(refractive_index=1.0)))
        elif kind == "too-many-recorders":
            have = sum(len(n.recorders) for n in PreOrderIter(root))
            extra = [Recorder("extra-%d" % k, event="entering") for k in range(257 - have + v)]
            half = len(extra) // 2
            node.recorders = list(node.recorders) + extra[:half]
            last = S[(at + v) % len(S)]
            last.recorders = list(last.recorders) + extra[half:]
        elif kind == "recorder-nowhere":
            nowhere = [n for n in PreOrderIter(root) if n.geometry is None]
            if nowhere and v % 2:
                target = nowhere[at % len(nowhere)]
            else:
                target = Node(name="nowhere-%d" % len(where), parent=node)
            target.recorders = list(target.recorders) + [Recorder("nowhere-%d" % len(where), event="lost")]
        else:
            raise AssertionError(kind)
        where.append((kind, node.name))
    return where


def benign(scene, spec, kind):
    from anytree import PreOrderIter
    from pvtrace import Material, Node, Scatterer, Sphere
    from pvtrace.engine import Recorder
    from pvtrace.material.utils import isotropic

    root = scene.root
    solids = [n for n in PreOrderIter(root) if n.geometry is not None]
    if kind == "unit-scale":
        m = np.eye(4)
        m[:3, :3] *= 1 + 1e-13
        solids[-1].pose = solids[-1].pose @ m
    elif kind == "full-recorders":
        have = sum(len(n.recorders) for n in PreOrderIter(root))
        solids[-1].recorders = list(solids[-1].recorders) + [
            Recorder("extra-%d" % k, event="entering") for k in range(256 - have)]
    elif kind == "same-phase":
        for n in solids[1:]:
            m = n.geometry.material
            n.geometry.material = Material(refractive_index=m.refractive_index, surface=m.surface,
                                           components=list(m.components) + [
                Scatterer(0.0, phase_function=isotropic, name="none")])
    elif kind == "zero-component":
        m = solids[-1].geometry.material
        solids[-1].geometry.material = Material(refractive_index=m.refractive_index, surface=m.surface,
                                                components=[Scatterer(0.0, name="z")] + list(m.components))


def full(spec):
    """With as many solids as the engine takes, the others being specks beside the scene."""
    spec = copy.deepcopy(spec)
    h = sc.inner_box(spec["nodes"][0]["shape"])
    have = sum(1 for n in spec["nodes"] if n.get("shape"))
    for k in range(128 - have):
        spec["nodes"].append({"name": "speck-%d" % k, "parent": 0, "rotations": [], "n": 1.4,
                              "location": [-0.9 * h[0] + 1.8 * h[0] * k / 128, 0.0, 0.9 * h[2]],
                              "shape": {"type": "sphere", "radius": 0.005 * min(h)}, "surface": "fresnel",
                              "components": []})
    return spec


def view(scene):
    """What can be seen of a scene from outside."""
    from anytree import PreOrderIter

    wl = np.linspace(305.0, 995.0, 7)
    out = []
    for n in PreOrderIter(scene.root):
        g = n.geometry
        d = [n.name, id(n), id(n.parent), [id(c) for c in n.children], np.array(n.pose).tolist(),
             np.array(n.location).tolist(), id(g), id(n.light), [id(r) for r in n.recorders]]
        for r in n.recorders:
            d.append([getattr(r, a, None) if a != "histograms" else [repr(h) for h in getattr(r, a, [])]
                      for a in ("name", "event", "facet", "atol", "histograms")])
        if g is not None:
            d.append([repr(getattr(g, a, None)) for a in ("size", "radius", "length")])
            m = g.material
            d.append(id(m))
            if m is not None:
                d += [m.refractive_index, id(m.surface), id(m.surface.delegate), [id(c) for c in m.components]]
                for c in m.components:
                    if hasattr(c, "quantum_yield"):
                        d += [c.name, c.quantum_yield, repr(c.tau_rad), repr(c.tau_nr)]
                        d.append([float(c.coefficient(w)) for w in wl])
        out.append(d)
    return repr(out)


def paths(scene, seed):
    from pvtrace.algorithm import photon_tracer

    out = []
    np.random.seed(seed % (2 ** 32))
    for ray in list(scene.emit(3)):
        out.append([(tuple(r.position), tuple(r.direction), r.wavelength, e, repr(sorted((m or {}).items())))
                    for r, e, m in photon_tracer.step_forward(scene, ray, maxsteps=8)])
    return out


def prop(case):
    from pvtrace.engine import UnsupportedSceneError, compile_scene, simulate, simulate_stream

    spec = case["scene"]
    if case["benign"] == "full-nodes" and not case["features"]:
        spec = full(spec)
    scene = sc.build(spec)
    features = apply(scene, spec, case["features"])
    if not features:
        benign(scene, spec, case["benign"])
    n = 40
    runs = {"compile": lambda: compile_scene(scene),
            "simulate": lambda: simulate(scene, n, seed=case["seed"], workers=2, maxsteps=60, max_events=130),
            "stream": lambda: list(simulate_stream(scene, n, bundle=17, seed=case["seed"], workers=2,
                                                   maxsteps=60, max_events=130))}
    order = [case["first"]] + [k for k in runs if k != case["first"]]
    before = view(scene)
    first = None if features else paths(scene, case["seed"])
    results = {}
    for k in order:
        np.random.seed(case["seed"] % (2 ** 32))
        try:
            results[k] = runs[k]()
        except UnsupportedSceneError as e:
            require(features, "%s refused a scene the engine can trace (%s): %s", k, case["benign"], e)
            results[k] = None
            continue
        except Violation:
            raise
        except Exception as e:
            raise Violation("%s raised %r for a scene with %s" % (k, e, features or "nothing unsupported"))
        require(not features, "%s accepted a scene with %s", k, features)
    require(view(scene) == before, "%s changed the scene (%s)", order, features)
    if features:
        return Info(nontrivial=any(n != "world" for _, n in features), evaluations=3,
                    classes=sorted({k for k, _ in features}))
    require(paths(scene, case["seed"]) == first, "the scene is traced differently after %s", order)
    model = sc.Model(spec)
    hs = list(results["simulate"].histories())
    require(len(hs) == n, "%d histories for %d rays", len(hs), n)
    flat = oracle.Flat(hs)
    steps = oracle.Steps(model, flat)
    oracle.check_exact(model, flat, steps)
    oracle.check_surfaces(model, flat, steps)
    for i, h in enumerate(hs):
        for ray, event, meta in h:
            c = (meta or {}).get("component")
            if c:
                node = spec["nodes"][model.index[meta["container"]]]
                require(c in [x["name"] for x in node["components"]] + ["z", "none"],
                        "ray %d: component %s is not in %s", i, c, meta["container"])
    return Info(nontrivial=len(model.solids) > 2 or any(x["components"] for x in spec["nodes"]),
                evaluations=3, classes=["accepted/" + case["benign"]])


PARTS = [Part("scenes", case, prop, quick=3200, thorough=100000, shards=8,
              rule="a feature outside the root, or an accepted scene with components or several solids")]
