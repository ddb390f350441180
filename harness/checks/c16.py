"""C16: scene files parse to exactly the scene they describe, or are refused."""
import contextlib
import copy
import dataclasses
import io
import math
import os
import pathlib
import shutil
import tempfile

import numpy as np
import yaml
from hypothesis import strategies as st

from harness import scenefile as sf
from harness.core import Info, Part, Violation, require
from harness.gen import seeds

ID = "C16"
RULE = ("A case is a generated scene document (all node, component, light, mask, spectrum and recorder forms the schema "
        "allows, with spectrum and mesh files in folders) and a way of naming it. scene: the parsed scene is compared "
        "part by part, and by seeded rays, with one built from the document through the Python classes. refused: the "
        "document is broken in one place, or tries to run code. Evaluations are documents. Non-trivial: a component or "
        "a solid besides the world; every broken document.")
ASSUMPTIONS = ["the Python classes do what their own properties (C01-C13) say: the reference scene is built with them",
               "a direction turns the node's z axis along it by the shortest rotation, in the frame of the parent",
               "a coefficient next to a spectrum is the value at its peak, angles are in degrees (as in the tutorials)",
               "the range of a named spectrum is a whole number of spacings"]

WL = [300.0, 333.3, 401.0, 455.5, 500.0, 555.0, 617.0, 700.25, 850.0, 999.0, 1000.0]


@contextlib.contextmanager
def scratch():
    folder = os.path.realpath(tempfile.mkdtemp(prefix="verif-c16-"))
    try:
        yield folder
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def load(path, how, folder):
    from pvtrace.cli.parse import parse

    with contextlib.redirect_stdout(io.StringIO()):
        if how == "path":
            return parse(pathlib.Path(path))
        if how == "relative":
            old = os.getcwd()
            os.chdir(folder)
            try:
                return parse(os.path.relpath(path, folder))
            finally:
                os.chdir(old)
        return parse(path)


# ------------------------------------------------------------------ comparing
def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def same_rays(f, g, n, what, seed=11):
    """The rays or vectors two callables give with the same random numbers."""
    out = []
    for k in (f, g):
        np.random.seed(seed)
        out.append([k() for _ in range(n)])
    for a, b in zip(*out):
        if hasattr(a, "position"):
            require(close(a.position, b.position) and close(a.direction, b.direction)
                    and close(a.wavelength, b.wavelength) and a.source == b.source, "%s: %s, should be %s", what, a, b)
        else:
            require(close(a, b), "%s: %s, should be %s", what, a, b)


def same_component(a, b):
    from pvtrace import Ray

    what = "component %r" % b.name
    require(type(a) is type(b) and a.name == b.name, "%s is %s %r", what, type(a).__name__, a.name)
    got, want = [float(a.coefficient(w)) for w in WL], [float(b.coefficient(w)) for w in WL]
    require(close(got, want), "%s: coefficients at %s are %s, should be %s", what, WL, got, want)
    require(close(a.quantum_yield, b.quantum_yield), "%s: quantum yield %r, should be %r", what, a.quantum_yield,
            b.quantum_yield)
    if hasattr(b, "emit"):
        ray = Ray((0, 0, 0), (0, 0, 1), 400.0)
        same_rays(lambda: a.emit(ray, method="full"), lambda: b.emit(ray, method="full"), 4, what)


def same_node(a, b, n, pose, comps):
    what = "node %r" % b.name
    require((a.parent and a.parent.name) == (b.parent and b.parent.name), "%s has parent %s, should be %s", what,
            a.parent, b.parent)
    require(type(a.geometry) is type(b.geometry) and (a.light is None) == (b.light is None), "%s holds %s and %s", what,
            a.geometry, a.light)
    if b.name != "world":
        loc, R = pose
        M = np.array(a.pose, float)
        require(close(M[:3, 3], loc), "%s is at %s, should be %s", what, M[:3, 3], loc)
        if R is None:
            require(close(M[:3, 2], [0, 0, -1]) and close(M[:3, :3] @ M[:3, :3].T, np.eye(3))
                    and abs(np.linalg.det(M[:3, :3]) - 1) < 1e-9, "%s should face -z, is turned by\n%s", what, M)
        else:
            require(close(M[:3, :3], R, 1e-8), "%s with direction %s is turned by\n%s\nshould be\n%s", what,
                    n.get("direction"), M[:3, :3], R)
    if b.geometry is not None:
        g, h = a.geometry, b.geometry
        for attr in ("size", "radius", "length"):
            if hasattr(h, attr):
                require(close(getattr(g, attr), getattr(h, attr)), "%s has %s %s, should be %s", what, attr,
                        getattr(g, attr), getattr(h, attr))
        if "mesh" in n:
            u, v = (sorted(sorted(np.round(p, 6).tolist()) for p in x.trimesh.triangles) for x in (g, h))
            require(len(u) == len(v) and close(u, v, 3e-6), "%s has the triangles %s, should be %s", what, u, v)
        m, k = g.material, h.material
        require(close(m.refractive_index, k.refractive_index), "%s has refractive index %s, should be %s", what,
                m.refractive_index, k.refractive_index)
        require([c.name for c in m.components] == [c.name for c in k.components], "%s has components %s, should be %s",
                what, [c.name for c in m.components], [c.name for c in k.components])
        for c, d in zip(m.components, k.components):
            same_component(c, d)
    if b.light is not None:
        require(a.light.name == b.name, "the light of %s is called %r", what, a.light.name)
        got, want = (iter_rays(x.light) for x in (a, b))
        same_rays(got, want, 4, "light of " + what)


def iter_rays(light):
    return lambda: next(iter(light.emit(1)))


def compare_recorders(case, nodes, poses):
    from pvtrace.engine import Heatmap

    want = sf.recorders(case)
    got = {}
    for name, node in nodes.items():
        for r in node.recorders:
            require(r.name not in got, "recorder %r is there twice", r.name)
            got[r.name] = (name, r)
    require(set(got) == set(want), "recorders are %s, should be %s", sorted(got), sorted(want))
    for name, w in want.items():
        at, r = got[name]
        what = "recorder %r" % name
        require(at == w["node"] and r.event == w["event"], "%s is %s at %s, should be %s at %s", what, r.event, at,
                w["event"], w["node"])
        facet = w.get("facet")
        if w["auto"] and "local_facet" in w:    # the face, wherever its box is turned
            M = np.eye(3)
            k = nodes[at]
            while k is not None and k.name != "world":
                M = np.array(k.pose, float)[:3, :3] @ M
                k = k.parent
            facet = M @ np.array(w["local_facet"])
        if facet is None:
            require(r.facet is None, "%s has the facet %s", what, r.facet)
        else:
            require(r.facet is not None and close(r.facet, facet, 1e-7), "%s has the facet %s, should be %s", what,
                    r.facet, facet)
        require(r.atol == w.get("atol", 1e-6), "%s has atol %r", what, r.atol)
        hs = []
        for h in r.histograms:
            if isinstance(h, Heatmap):
                hs.append(["position", h.a.prop, h.b.prop, [h.a.start, h.a.stop, h.a.bins],
                           [h.b.start, h.b.stop, h.b.bins]])
            else:
                hs.append([h.prop, h.start, h.stop, h.bins])
        ws = [[k] + list(v) if v is not None else [k] for k, v in (w.get("histograms") or {}).items()]
        require(len(hs) == len(ws), "%s has histograms %s, should be %s", what, hs, ws)
        for g, v in zip(sorted(hs, key=str), sorted(ws, key=str)):
            ok = g[0] == v[0]
            if w["auto"]:
                if v[0] == "position":
                    ok = ok and g[1:3] == v[1:3] and close(g[3][:2], v[3][:2]) and close(g[4][:2], v[4][:2])
            else:
                ok = ok and g == [float(c) if isinstance(c, int) and i in (1, 2) and v[0] != "position" else c
                                  for i, c in enumerate(v)]
            require(ok, "%s has the histogram %s, should be %s", what, g, v)


def emitted(scene, seed, n=6):
    np.random.seed(seed % 2 ** 32)
    out = []
    try:
        for ray in scene.emit(n):
            out.append(ray)
    except ValueError as exc:       # a wavelength outside a spectrum
        out.append(str(exc)[:20])
    return out


def history(scene, ray, seed):
    from pvtrace.algorithm import photon_tracer
    from pvtrace.common.errors import GeometryError

    np.random.seed(seed % 2 ** 32)
    try:
        return [(r, e.name) for r, e in photon_tracer.follow(scene, ray, maxsteps=20)]
    except ValueError as exc:
        return str(exc)[:20]
    except GeometryError:           # an edge of a mesh (single precision of embree)
        return None


def close_rays(r, q):
    return (close(r.position, q.position, 1e-6) and close(r.direction, q.direction, 1e-6)
            and close(r.wavelength, q.wavelength) and r.source == q.source and close(r.duration, q.duration))


def same_traces(scene, want, nodes, got, seed):
    """The same rays and random numbers give the same histories in both scenes.

    The caller has compared the poses and meshes of both scenes; the scene of reference takes the exact numbers of the
    other, so that the histories can only differ in what comes after.
    """
    a, b = emitted(scene, seed), emitted(want, seed)
    require(len(a) == len(b) and all(x == y if isinstance(x, str) or isinstance(y, str) else close_rays(x, y)
                                     for x, y in zip(a, b)), "emits %s, should emit %s", a, b)
    for name, node in nodes.items():
        node.pose = np.array(got[name].pose)
        if hasattr(node.geometry, "trimesh"):
            node.geometry.trimesh = got[name].geometry.trimesh
    tilt = np.random.RandomState(seed % 1013)
    for i, ray in enumerate(x for x in b if not isinstance(x, str)):
        # turned a little, so that it does not run along edges of meshes
        d = np.array(ray.direction) + 0.02 * tilt.normal(size=3)
        ray = dataclasses.replace(ray, direction=tuple(d / np.linalg.norm(d)))
        h, g = history(scene, ray, seed + i), history(want, ray, seed + i)
        if h is None or g is None:
            continue
        require(h == g if isinstance(h, str) or isinstance(g, str) else len(h) == len(g) and all(
            e == f and close_rays(r, q) for (r, e), (q, f) in zip(h, g)),
            "with the same random numbers the parsed scene gives\n%s\nthe described one\n%s", h, g)


@st.composite
def scene_case(draw):
    c = draw(sf.document())
    c["how"] = draw(st.sampled_from(["absolute", "absolute", "relative", "path"]))
    c["seed"] = draw(seeds)
    return c


def scene_prop(case):
    with scratch() as folder:
        path = sf.write(case, folder)
        before = open(path).read()
        scene = load(path, case["how"], folder)
        require(open(path).read() == before, "parsing changed the file")
        want, nodes, poses, comps = sf.reference(case, folder)
        doc = sf.plain(case)
        got = {n.name: n for n in [scene.root] + list(scene.root.descendants)}
        require(len(got) == 1 + len(scene.root.descendants) and set(got) == set(nodes), "nodes are %s, should be %s",
                [n.name for n in [scene.root] + list(scene.root.descendants)], sorted(nodes))
        require(scene.root.name == "world" and scene.root.parent is None, "the root is %s", scene.root)
        for name, n in doc["nodes"].items():
            same_node(got[name], nodes[name], n, poses[name], comps)
        compare_recorders(case, got, poses)
        free = any(R is None for _, R in poses.values())
        if not free:
            same_traces(scene, want, nodes, got, case["seed"])
    kinds = [k for n in doc["nodes"].values() for k in n if k in ("box", "sphere", "cylinder", "mesh", "light")]
    kinds += [k for c in (doc.get("components") or {}).values() for k in c]
    return Info(nontrivial=len(kinds) > 2, evaluations=1,
                classes=sorted(set(kinds)) + [case["how"], "traced" if not free else "not traced"]
                + ["recorders"] * bool(sf.recorders(case)))


# -------------------------------------------------------------------- refused
BREAKS = ["component", "parent", "file", "mesh-file", "node-key", "two-shapes", "no-shape", "no-world", "radius",
          "index", "yield", "event", "recorder-node", "version", "no-version", "cycle", "property", "histogram",
          "spectrum-name", "component-kind", "two-kinds", "no-emission", "list", "node-name", "mask-key", "two-masks",
          "direction-key", "hg", "facet", "code", "code", "code", "code", "syntax", "range"]
CODE = ["!!python/object/apply:os.mkdir [%s]", "!!python/object/apply:pathlib.Path.touch [!!python/object/apply:"
        "pathlib.Path [%s]]", "!!python/object/new:os.mkdir [%s]", "!!python/object/apply:builtins.eval "
        "[\"__import__('os').mkdir('''%s''')\"]", "!!python/object/apply:subprocess.call [[mkdir, %s]]"]


@st.composite
def refused_case(draw):
    c = draw(sf.document(solids=2))
    c["break"] = draw(st.sampled_from(BREAKS))
    c["pick"] = draw(st.integers(0, 1000))
    c["how"] = draw(st.sampled_from(["absolute", "relative", "path"]))
    return c


def broken(case, folder):
    """The text of the document, broken; None if it has no place to break in that way."""
    doc = copy.deepcopy(sf.completed(sf.plain(case), folder))
    k, pick = case["break"], case["pick"]
    one = lambda seq: seq[pick % len(seq)] if seq else None
    nodes = doc["nodes"]
    solids = [n for n in nodes.values() if "light" not in n]
    body = lambda n: n[[s for s in ("box", "sphere", "cylinder", "mesh") if s in n][0]]
    lights = [n for n in nodes.values() if "light" in n]
    comps = list((doc.get("components") or {}).values())
    inner = [c[s] for c in comps for s in c]
    spectra = [x for b in inner for x in (b, b.get("absorption", {}), b.get("emission", {})) if "spectrum" in x]
    s, L, other = one(solids), one(lights), [m for m in nodes if m != "world"]
    if k == "component":
        body(s)["material"]["components"] = list(body(s)["material"].get("components", [])) + ["unheard-of"]
    elif k == "parent":
        nodes[one(other)]["parent"] = "unheard-of"
    elif k == "file":
        if not spectra:
            return None
        one(spectra)["spectrum"] = {"file": "missing.csv"}
    elif k == "mesh-file":
        nodes["part"] = {"mesh": {"file": "missing.stl", "material": {"refractive-index": 1.5}}}
    elif k == "node-key":
        one(list(nodes.values()))["colour"] = "red"
    elif k == "two-shapes":
        s["sphere" if "box" in s else "box"] = {"size": [1, 1, 1], "radius": 1, "material": {"refractive-index": 1}}
    elif k == "no-shape":
        nodes["nothing"] = {"location": [0, 0, 0]}
    elif k == "no-world":
        del nodes["world"]
    elif k == "radius":
        nodes["bad"] = {"sphere": {"radius": one([-1, "wide", None]), "material": {"refractive-index": 1.5}}}
    elif k == "index":
        body(s)["material"]["refractive-index"] = one([0.5, 0, -1.5, "glass", None])
    elif k == "yield":
        ok = [b for b in inner if "emission" in b]
        if not ok:
            return None
        one(ok)["emission"]["quantum-yield"] = one([1.5, -0.1, "high"])
    elif k == "event":
        doc.setdefault("recorders", {})["r"] = {"node": "world", "event": "leaving"}
    elif k == "recorder-node":
        doc.setdefault("recorders", {})["r"] = {"node": "unheard-of", "event": "lost"}
    elif k == "version":
        doc["version"] = one(["2.0", "0.9", "one", 1.0])
    elif k == "no-version":
        del doc["version"]
    elif k == "cycle":
        name = one(other)
        nodes["a-1"] = {"parent": "a-2", "light": {}}
        nodes["a-2"] = {"parent": one(["a-1", "a-2"]), "light": {}}
        nodes[name]["parent"] = "a-1"
    elif k == "property":
        doc.setdefault("recorders", {})["r"] = {"node": "world", "event": "lost", "histograms": {"colour": [0, 1, 5]}}
    elif k == "histogram":
        doc.setdefault("recorders", {})["r"] = {"node": "world", "event": "lost", "histograms": {
            "wavelength": one([[0, 1, 0], [5, 1, 3], [0, 1], [], [0, 1, 2, 3]])}}
    elif k == "spectrum-name":
        if not spectra:
            return None
        one(spectra)["spectrum"] = {"name": "ruby", "range": {"min": 300, "max": 900, "spacing": 2}}
    elif k == "range":
        if not spectra:
            return None
        one(spectra)["spectrum"] = {"name": "fluro-red", "range": one([{"min": 300, "max": 900}, {}, None,
                                                                       {"min": "a", "max": 900, "spacing": 2}])}
    elif k == "component-kind":
        doc.setdefault("components", {})["c"] = {"mirror": {"coefficient": 1}}
    elif k == "two-kinds":
        doc.setdefault("components", {})["c"] = {"absorber": {"coefficient": 1}, "scatterer": {"coefficient": 1}}
    elif k == "no-emission":
        doc.setdefault("components", {})["c"] = {"luminophore": {"absorption": {"coefficient": 1}}}
    elif k == "list":
        return one(["[1, 2]", "hello", "", "5", "nodes: [world]", "nodes: {}"])
    elif k == "node-name":
        nodes[one(["a b", "a/b", "", "x:y", "é"])] = {"light": {}}
    elif k == "mask-key":
        L["light"]["mask"] = {"position": {"square": [1, 1]}}
    elif k == "two-masks":
        L["light"]["mask"] = {"position": {"rect": [1, 1], "circle": 1}}
    elif k == "direction-key":
        L["light"]["mask"] = {"direction": {"uniform": None}}
    elif k == "hg":
        L["light"]["mask"] = {"direction": {"henyey-greenstein": {"g": one([1.5, -1.5, "x"])}}}
    elif k == "facet":
        doc.setdefault("recorders", {})["r"] = {"node": "world", "event": "escaping", "facet": one([[0, 1], [1],
                                                                                                  ["a", 0, 1], "top"])}
    elif k == "syntax":
        return sf.text(case, folder) + one(["\n}", "\n\tx: 1", "\n- a\nb", "\n&", "\n\"open"])
    text = yaml.safe_dump(doc, sort_keys=False)
    if k == "code":
        tag = CODE[pick % len(CODE)] % os.path.join(folder, "ran")
        where = pick // len(CODE) % 3
        if where == 0:
            text += "extra: %s\n" % tag
        elif where == 1:
            text = text.replace("version: '1.0'", "version: %s" % tag)
        else:
            text += "extra: &x [%s, *x]\n" % tag
    return text


def refused_prop(case):
    with scratch() as folder:
        sf.write_files(case, folder)
        text = broken(case, folder)
        if text is None:
            return Info(nontrivial=False, evaluations=0)
        path = os.path.join(folder, "scene.yml")
        with open(path, "w") as fp:
            fp.write(text)
        made = raised = None
        try:
            made = load(path, case["how"], folder)
        except Exception as exc:
            raised = exc
        require(not os.path.exists(os.path.join(folder, "ran")), "parsing ran code from the file:\n%s", text)
        require(made is None, "a document broken by %r is accepted:\n%s", case["break"], text)
        require(raised is not None, "parse returned nothing for a document broken by %r", case["break"])
    return Info(nontrivial=True, evaluations=1, classes=[case["break"]])


PARTS = [
    Part("scene", scene_case, scene_prop, quick=900, thorough=30000, shards=8,
         rule="a component or a solid besides the world"),
    Part("refused", refused_case, refused_prop, quick=600, thorough=12000, shards=8, rule="every broken document"),
]
