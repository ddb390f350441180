"""C21: the renderer shows the scene as it is and the rays as they went."""
import contextlib
import io
import itertools
import json
import math
import os
import signal
import sqlite3
import struct
import time

import numpy as np
from hypothesis import strategies as st

from harness import geom, scenefile as sf, scenes as sc, trace
from harness.checks.c15 import scratch
from harness.core import Info, Part, require
from harness.gen import axis_angle, lognum, num, seeds, unit_vector

ID = "C21"
RULE = ("What is sent to the viewer (the commands of meshcat, at its connection) is applied to a tree of objects and "
        "transforms as the viewer does, and what that tree shows is compared with a model after every step. screen: a case "
        "is a generated scene and a sequence of renderings, moved, added and removed nodes, drawn rays, paths and histories "
        "(made up and traced) with their options, and removals. long: up to 70000 lines drawn by one renderer. cli: show and simulate with a viewer. device: the LSC's "
        "show and simulate. colours: wavelengths. Evaluations are comparisons of everything shown. Non-trivial: something "
        "drawn had to make way, or a solid moved, and something remained.")
ASSUMPTIONS = ["the viewer composes the transforms along the path of an object, and deletes all below a path, as meshcat does",
               "a line which starts where it ends need not be drawn",
               "positions are shown in single precision"]


# ------------------------------------------------------------------ the screen
class Screen:
    """Stands in for the connection to the viewer."""
    made = []

    def __init__(self, *args, **kwargs):
        self.clear()
        self.web_url = "http://127.0.0.1/"
        self.zmq_url = "tcp://127.0.0.1"
        self.watch, self.depth = None, 0
        Screen.made.append(self)

    def clear(self):
        self.objects, self.transforms = {}, {}

    def open(self):
        return self

    def wait(self):
        return "ok"

    def send(self, command):
        c = command.lower()
        path = tuple(x for x in c["path"].split("/") if x)
        self.depth = max(self.depth, len(path))
        if c["type"] == "set_object":
            self.objects[path] = c["object"]
        elif c["type"] == "set_transform":
            self.transforms[path] = np.array(c["matrix"], float).reshape(4, 4).T
        elif c["type"] == "delete":
            for d in (self.objects, self.transforms):
                if len(path) == self.depth:
                    d.pop(path, None)       # nothing lies below it
                    continue
                for p in [p for p in d if p[:len(path)] == path]:
                    del d[p]
        if self.watch and c["type"] == "set_object":
            self.watch(self, path)

    def shown(self, paths=None):
        """[(kind, value, colour, material)]: lines in the world, spheres, cylinders and triangles."""
        out = []
        for path in paths or list(self.objects):
            o = self.objects[path]
            m = np.eye(4)
            for k in range(1, len(path) + 1):
                m = m @ self.transforms.get(path[:k], np.eye(4))
            body, = [x for x in o["geometries"] if x["uuid"] == o["object"]["geometry"]]
            paint, = [x for x in o["materials"] if x["uuid"] == o["object"]["material"]]
            m = m @ np.array(o["object"].get("matrix", np.eye(4).ravel()), float).reshape(4, 4).T
            out.append(self.decode(o["object"]["type"], body, m) + (paint.get("color"), paint))
        return out

    @staticmethod
    def decode(kind, body, m):
        at = lambda p: np.asarray(p, float) @ m[:3, :3].T + m[:3, 3]
        t = body["type"]
        if kind in ("Line", "LineSegments"):
            p = at(points(body))
            if kind == "Line":
                return ("lines", np.stack([p[:-1], p[1:]], axis=1))
            return ("lines", p.reshape(-1, 2, 3))
        if t == "SphereGeometry":
            s = np.linalg.svd(m[:3, :3], compute_uv=False)
            require(s.max() - s.min() < 1e-6 * s.max(), "a sphere is shown with the scales %s", s)
            return ("sphere", np.append(m[:3, 3], body["radius"] * s.mean()))
        if t == "CylinderGeometry":
            r, h = m[:3, :3], body["height"]
            require(np.abs(r.T @ r - np.eye(3)).max() < 1e-6, "a cylinder is shown with the transform %s", m.tolist())
            require(body["radiusTop"] == body["radiusBottom"], "a cylinder is shown as a cone")
            return ("cylinder", (at([[0, -h / 2, 0], [0, h / 2, 0]]), body["radiusTop"]))
        if t == "BoxGeometry":
            v = np.array(list(itertools.product(*[(-s / 2, s / 2) for s in (body["width"], body["height"], body["depth"])])))
            f = [(0, 1, 2), (1, 3, 2), (4, 5, 6), (5, 7, 6), (0, 1, 4), (1, 5, 4), (2, 3, 6), (3, 7, 6), (0, 2, 4), (2, 6, 4),
                 (1, 3, 5), (3, 7, 5)]
            return ("triangles", at(v)[np.array(f)])
        if t == "_meshfile" and body["format"] == "stl":
            return ("triangles", at(stl(body["data"])))
        if t == "_meshfile" and body["format"] == "obj":
            return ("triangles", at(obj(body["data"])))
        if t == "BufferGeometry":
            p = points(body)
            i = body["data"].get("index")
            i = np.frombuffer(i["array"].data, np.uint32).reshape(-1, 3) if i else np.arange(len(p)).reshape(-1, 3)
            return ("triangles", at(p)[i])
        require(False, "shown: %s %s", kind, t)


def points(body):
    return np.frombuffer(body["data"]["attributes"]["position"]["array"].data, np.float32).reshape(-1, 3).astype(float)


def stl(data):
    data = bytes(getattr(data, "data", data) if not isinstance(data, str) else data.encode())
    n, = struct.unpack("<I", data[80:84])
    if len(data) == 84 + 50 * n:
        d = np.dtype([("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")])
        return np.frombuffer(data[84:], d)["v"].astype(float)
    v = [line.split()[1:] for line in data.decode().splitlines() if line.split()[:1] == ["vertex"]]
    return np.array(v, float).reshape(-1, 3, 3)


def obj(text):
    v, f = [], []
    for line in text.splitlines():
        w = line.split()
        if w[:1] == ["v"]:
            v.append([float(x) for x in w[1:4]])
        elif w[:1] == ["f"]:
            f.append([int(x.split("/")[0]) - 1 for x in w[1:4]])
    return np.array(v)[np.array(f)]


@contextlib.contextmanager
def screens():
    """No viewer is started; the connections made are listed in Screen.made."""
    import meshcat.visualizer as mv
    import webbrowser

    old, Screen.made[:] = (mv.ViewerWindow, webbrowser.open, time.sleep), []
    mv.ViewerWindow, webbrowser.open = Screen, lambda *a, **k: True
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield Screen.made
    finally:
        mv.ViewerWindow, webbrowser.open, time.sleep = old


# ------------------------------------------------------------------- the model
def rgb(w):
    """The colour of a whole number of nanometres, by the method cited."""
    if 380 <= w < 440:
        c = (-(w - 440.0) / 90, 0.0, 1.0)
    elif 440 <= w < 490:
        c = (0.0, (w - 440.0) / 50, 1.0)
    elif 490 <= w < 510:
        c = (0.0, 1.0, -(w - 510.0) / 20)
    elif 510 <= w < 580:
        c = ((w - 510.0) / 70, 1.0, 0.0)
    elif 580 <= w < 645:
        c = (1.0, -(w - 645.0) / 65, 0.0)
    elif 645 <= w <= 780:
        c = (1.0, 0.0, 0.0)
    else:
        c = (0.0, 0.0, 0.0)
    s = 0.3 + 0.7 * (w - 350) / 70 if 380 <= w < 420 else 1.0 if 420 <= w <= 700 else \
        0.3 + 0.7 * (780 - w) / 80 if 700 < w <= 780 else 0.0
    return np.array([255 * s * x for x in c])


def has_colour(colour, w):
    c = np.array([colour >> 16, colour >> 8 & 255, colour & 255])
    near = [rgb(math.floor(w))] + ([rgb(math.floor(w) + 1)] if w != math.floor(w) else [])
    return bool(np.all(c >= np.min(near, axis=0) - 1.001) and np.all(c <= np.max(near, axis=0) + 1.001))


class Drawing:
    """Line segments and baubles, with the wavelengths of their colours."""

    def __init__(self):
        self.lines, self.baubles = [], []

    def line(self, a, b, w):
        a, b = np.array(a, float), np.array(b, float)
        if np.abs(a - b).max() > 0:
            self.lines.append((a, b, w))
        return self


def of_path(rays):
    d = Drawing()
    for (a, _, w), (b, _, _) in zip(rays, rays[1:]):
        d.line(a, b, w)
    return d


def of_history(history, baubles=True, world_segment="short", short_length=1.0, bauble_radius=0.01):
    """history: [(position, direction, wavelength, event)]; None if there is nothing to draw."""
    if world_segment == "exclude":
        kinds = [h[3] for h in history]
        if "EXIT" in kinds:
            history = history[:kinds.index("EXIT")]
        if len(history) < 2:
            return None
    d = Drawing()
    for (a, u, w, _), (b, _, _, kind) in zip(history, history[1:]):
        if kind == "EXIT":
            b = np.array(a, float) + np.array(u, float) * short_length
        d.line(a, b, w)
    if baubles:
        d.baubles = [(np.array(p, float), bauble_radius, w) for p, _, w, kind in history if kind == "TRANSMIT"]
    return d


def solid_of(shape, m):
    """What a shape of a spec looks like under the pose m."""
    at = lambda p: np.asarray(p, float) @ m[:3, :3].T + m[:3, 3]
    t = shape["type"]
    if t == "sphere":
        return ("sphere", np.append(m[:3, 3], shape["radius"]))
    if t == "cylinder":
        h = shape["length"]
        return ("cylinder", (at([[0, 0, -h / 2], [0, 0, h / 2]]), shape["radius"]))
    if t == "box":
        return ("triangles", at(list(itertools.product(*[(-s / 2, s / 2) for s in shape["size"]]))), float(np.prod(shape["size"])))
    g = geom.Shape(shape)
    return ("triangles", at(g.V), sc.volume(shape))


def solid_of_node(node):
    """The same for a node of pvtrace (public attributes of its geometry, poses multiplied here)."""
    from pvtrace import Cylinder, Sphere

    m = np.eye(4)
    for n in list(node.path)[1:]:
        m = m @ n.pose
    g = node.geometry
    if isinstance(g, Sphere):
        return solid_of({"type": "sphere", "radius": g.radius}, m)
    if isinstance(g, Cylinder):
        return solid_of({"type": "cylinder", "length": g.length, "radius": g.radius}, m)
    v = np.asarray(g.trimesh.vertices) @ m[:3, :3].T + m[:3, 3]
    return ("triangles", v, float(g.trimesh.volume))


def same_solid(a, b):
    """b is shown as a should be."""
    if a[0] != b[0]:
        return False
    if a[0] == "sphere":
        return np.allclose(a[1], b[1], rtol=2e-6, atol=1e-9 + 2e-6 * np.abs(a[1]).max())
    if a[0] == "cylinder":
        (p, r), (q, s) = a[1], b[1]
        tol = 1e-9 + 2e-6 * (np.abs(p).max() + r)
        return abs(r - s) < tol and (np.abs(p - q).max() < tol or np.abs(p - q[::-1]).max() < tol)
    tri = b[1]
    v = tri.reshape(-1, 3)
    tol = 1e-9 + 5e-6 * (np.abs(a[1]).max())
    d = np.abs(v[:, None, :] - a[1][None, :, :]).max(axis=2)
    if d.min(axis=1).max() > tol or d.min(axis=0).max() > tol:
        return False
    t = tri - a[1].mean(axis=0)
    vol = abs(np.einsum("ij,ij->", t[:, 0], np.cross(t[:, 1], t[:, 2])) / 6)
    if not math.isfinite(a[2]):
        return True
    span = np.ptp(a[1], axis=0).prod() + 1e-30
    return abs(vol - a[2]) < 1e-3 * a[2] + 1e-5 * span or tri.shape[0] == 12 and len(a[1]) == 8


def compare(screen, solids, drawings, flags, what):
    """Everything on the screen is one of the solids and drawings, and the other way round."""
    shown = screen.shown()
    bodies = [s for s in shown if s[0] != "lines"]
    want = list(solids)
    baubles = [b for d in drawings for b in d.baubles]
    left = []
    for s in bodies:
        k = next((k for k, w in enumerate(want) if same_solid(w, s)), None)
        if k is None:
            left.append(s)
            continue
        want.pop(k)
        if flags:
            require(bool(s[3].get("wireframe")) == flags["wireframe"], "%s: a solid has wireframe %s", what, s[3].get("wireframe"))
            require(abs(s[3].get("opacity") - flags["opacity"]) < 1e-9, "%s: a solid has opacity %s", what, s[3].get("opacity"))
    require(not want, "%s: not shown: %s; shown instead: %s", what, want[:1], [x[:2] for x in left[:2]])
    for s in left:
        k = next((k for k, (p, r, w) in enumerate(baubles) if s[0] == "sphere" and same_solid(("sphere", np.append(p, r)), s)
                  and has_colour(s[2], w)), None)
        require(k is not None, "%s: %s of colour %06x is shown, should not be (%d baubles left)", what, s[:2], s[2] or 0, len(baubles))
        baubles.pop(k)
    require(not baubles, "%s: there is no bauble at %s", what, baubles[:1])
    got = [(seg, s[2]) for s in shown if s[0] == "lines" for seg in s[1]]
    check_lines(got, [x for d in drawings for x in d.lines], what)
    return len(shown)


def tolerance(a, b):
    return 1e-9 + 3e-7 * max(np.abs(a).max(), np.abs(b).max())


def check_lines(got, lines, what):
    scale = 1e-9 + 3e-7 * max([1.0] + [np.abs(x).max() for x in ([g for g, _ in got] or [np.zeros(1)])])
    got = [(g, c) for g, c in got if np.abs(g[0] - g[1]).max() > 0]
    if got:
        ends = np.array([g.ravel() for g, _ in got])
        free = np.ones(len(got), bool)
        exact = {}
        for k, e in enumerate(ends):
            exact.setdefault(e.astype(np.float32).tobytes(), []).append(k)
    for a, b, w in lines:
        tol = tolerance(a, b)
        ok = np.array([], int)
        if got:
            same = exact.get(np.concatenate([a, b]).astype(np.float32).tobytes())
            k = same.pop() if same else None
            if k is not None and free[k] and has_colour(got[k][1], w):
                free[k] = False
                continue
            d = np.abs(ends - np.concatenate([a, b])).max(axis=1)
            e = np.abs(ends - np.concatenate([b, a])).max(axis=1)
            ok = np.flatnonzero(free & ((d <= tol) | (e <= tol)))
        ok = [k for k in ok if has_colour(got[k][1], w)] or (["close"] if len(ok) else [])
        if not ok and np.abs(a - b).max() <= 4 * tol:
            continue
        require(ok, "%s: no line from %s to %s is shown (%d lines, should be %d)", what, a, b, len(got), len(lines))
        require(ok[0] != "close", "%s: the line from %s to %s is not shown in the colour of %r nm", what, a, b, w)
        free[ok[0]] = False
    if got:
        rest = [got[k] for k in np.flatnonzero(free) if np.abs(got[k][0][0] - got[k][0][1]).max() > 4 * scale]
        require(not rest, "%s: a line from %s to %s is shown, should not be (%d lines, should be %d)", what,
                *(rest[0][0] if rest else (0, 0)), len(got), len(lines))


# ------------------------------------------------------------------ generation
WAVELENGTHS = st.one_of(st.integers(300, 1000).map(float), num(300, 1000), num(379, 420), num(690, 782),
                        st.sampled_from([380.0, 419.0, 440.0, 490.0, 510.0, 580.0, 645.0, 700.0, 780.0, 781.0]))


@st.composite
def made_up(draw):
    """A history of the grammar of the tracers, which need not follow the laws."""
    p = lambda: [draw(num(-5, 5)) for _ in range(3)]
    w = draw(WAVELENGTHS)
    h = [[p(), draw(unit_vector()), w, "GENERATE"]]
    for _ in range(draw(st.integers(0, 6))):
        kind = draw(st.sampled_from(["TRANSMIT", "TRANSMIT", "REFLECT", "SCATTER", "EMIT"]))
        if kind in ("SCATTER", "EMIT"):
            q = p()
            h.append([q, h[-1][1], w, "ABSORB"])
            if kind == "EMIT":
                w = draw(WAVELENGTHS)
            h.append([q, draw(unit_vector()), w, kind])
        else:
            h.append([p(), draw(unit_vector()), w, kind])
    end = draw(st.sampled_from(["EXIT", "EXIT", "EXIT", "NONRADIATIVE", "REACT", "KILL", "KILL"]))
    if end in ("NONRADIATIVE", "REACT"):
        q = p()
        h.append([q, h[-1][1], w, "ABSORB"])
        h.append([q, h[-1][1], w, end])
    elif end == "KILL":
        if len(h) < 2:
            h.append([p(), h[-1][1], w, "REFLECT"])
        h.append([h[-1][0], h[-1][1], w, "KILL"])
    else:
        far = draw(num(1.0, 60.0))
        h.append([[a + far * b for a, b in zip(h[-1][0], h[-1][1])], h[-1][1], w, "EXIT"])
    return h


@st.composite
def screen_case(draw):
    spec = draw(sc.scene(sc.Options(kinds=("box", "sphere", "cylinder", "mesh"), max_nodes=5, max_components=1, max_lights=1)))
    for k in range(len(spec["nodes"])):       # names which say something to the viewer
        if draw(st.integers(0, 3)) == 0 and k > 0:
            mate = draw(st.integers(0, k - 1))
            spec["nodes"][k]["name"] = draw(st.sampled_from(["%s/in", "%s/", "/%s", "%s//out", "%s.b", "%s child", "%s/x/y"])) \
                % spec["nodes"][mate]["name"]
    names = [n["name"] for n in spec["nodes"]]
    for k, n in enumerate(spec["nodes"]):
        if n["name"] in names[:k]:
            n["name"] = "%s-%d" % (n["name"], k)
            names[k] = n["name"]
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["history"] * 6 + ["path", "ray", "segment", "move", "add", "remove", "clear", "traced", "traced"]))
        op = {"op": k}
        if k in ("history", "traced"):
            if k == "history":
                op["history"] = draw(made_up())
            else:
                op["seed"] = draw(seeds)
            if draw(st.booleans()):
                op["baubles"] = draw(st.booleans())
            if draw(st.booleans()):
                op["world_segment"] = draw(st.sampled_from(["short", "exclude"]))
            if draw(st.booleans()):
                op["short_length"] = draw(lognum(0.01, 5))
            if draw(st.booleans()):
                op["bauble_radius"] = draw(lognum(0.003, 0.5))
        elif k == "path":
            op["rays"] = [[[draw(num(-5, 5)) for _ in range(3)], draw(unit_vector()), draw(WAVELENGTHS)]
                          for _ in range(draw(st.integers(1, 5)))]
        elif k == "ray":
            op["ray"] = [[draw(num(-5, 5)) for _ in range(3)], draw(unit_vector()), draw(WAVELENGTHS)]
            op["length"] = draw(lognum(0.1, 50))
        elif k == "segment":
            op["ends"] = [[draw(num(-5, 5)) for _ in range(3)] for _ in range(2)]
            op["colour"] = draw(st.one_of(st.none(), WAVELENGTHS))
        elif k in ("move", "add"):
            op["which"] = draw(st.integers(0, 11))
            op["location"] = [draw(num(-3, 3)) for _ in range(3)]
            op["rotations"] = [draw(axis_angle()) for _ in range(draw(st.integers(0, 2)))]
            op["remove"] = draw(st.booleans())
            if k == "add":
                op["shape"] = sc._fit(draw, draw(st.sampled_from(["box", "sphere", "cylinder", "mesh"])), [draw(num(0.2, 1)) for _ in range(3)])
        elif k == "remove":
            op["which"] = draw(st.integers(0, 11))
        ops.append(op)
    return {"spec": spec, "ops": ops, "max": draw(st.sampled_from([1, 1, 2, 3, 4, 10, None])),
            "wireframe": draw(st.booleans()), "opacity": draw(st.sampled_from([0.5, 1.0, 0.25]))}


def screen_prop(case):
    from pvtrace import Event, Material, Node, Ray
    from pvtrace.scene.renderer import MeshcatRenderer

    spec = json.loads(json.dumps(case["spec"]))
    scene = sc.build(spec)
    by_name = {n.name: n for n in [scene.root] + list(scene.root.descendants)}
    ray = lambda r: Ray(position=tuple(r[0]), direction=tuple(r[1]), wavelength=r[2], source="lamp")
    drawn = []          # [(ids, Drawing, is a history)], oldest first
    queue = []          # indices of the histories on show
    evaluations, dropped, moved, classes = 0, 0, 0, set()
    with screens() as made:
        kw = {} if case["max"] == 10 else {"max_histories": case["max"]}
        renderer = MeshcatRenderer(wireframe=case["wireframe"], opacity=case["opacity"], **kw)
        screen, = made
        flags = {"wireframe": case["wireframe"], "opacity": case["opacity"]}

        def check(what):
            model = sc.Model(spec)
            solids = [solid_of(spec["nodes"][i]["shape"], model.l2w[i]) for i in model.solids if i] if rendered else []
            compare(screen, solids, [d for _, d, _ in drawn if d], flags, what)

        rendered = True
        renderer.render(scene)
        check("rendered")
        for q, op in enumerate(case["ops"]):
            what = "step %d (%s)" % (q, op["op"])
            k = op["op"]
            classes.add(k)
            if k in ("history", "traced"):
                options = {x: op[x] for x in ("baubles", "world_segment", "short_length", "bauble_radius") if x in op}
                if k == "history":
                    h = op["history"]
                    given = [(ray(x), Event[x[3]]) for x in h]
                else:
                    try:
                        given, = [[(r, e) for r, e, _ in h] for h in trace.python(spec, 1, op["seed"], maxsteps=20, scene=scene)]
                    except Exception:       # a displaced scene need not be traceable
                        continue
                    h = [(r.position, r.direction, r.wavelength, e.name) for r, e in given]
                    if len(h) < 2:
                        continue
                classes.add(options.get("world_segment", "default") + " " + h[-1][3])
                ids = renderer.add_history(tuple(given) if q % 2 else given, **options)
                d = of_history(h, **options)
                if d is not None:
                    drawn.append([ids, d, True])
                    queue.append(drawn[-1])
                    if case["max"] is not None and len(queue) > case["max"]:
                        queue.pop(0)[1] = None
                        dropped += 1
            elif k == "path":
                rays = [ray(r) for r in op["rays"]]
                if len(rays) < 2:
                    try:
                        renderer.add_ray_path(rays)
                    except Exception:
                        continue
                    require(False, "%s: a path of one point is accepted", what)
                drawn.append([renderer.add_ray_path(rays), of_path(op["rays"]), False])
            elif k == "ray":
                p, u, w = op["ray"]
                ids = [renderer.add_ray(ray(op["ray"]), op["length"])]
                drawn.append([ids, Drawing().line(p, np.array(p) + op["length"] * np.array(u), w), False])
            elif k == "segment":
                from pvtrace.light.utils import wavelength_to_hex_int

                a, b = op["ends"]
                w = op["colour"]
                c = {} if w is None else {"colour": wavelength_to_hex_int(w)}
                ids = [renderer.add_line_segment(tuple(a), tuple(b), **c)]
                if w is None:       # white
                    mine = [s for s in screen.shown() if s[0] == "lines" and s[2] == 0xFFFFFF]
                    require(len(mine) == 1, "%s: %d white lines", what, len(mine))
                    check_lines([(mine[0][1][0], 0)], [(np.array(a), np.array(b), 200)], what)
                    renderer.remove_object(ids[0])
                else:
                    drawn.append([ids, Drawing().line(a, b, w), False])
            elif k in ("move", "add"):
                hosts = [i for i, n in enumerate(spec["nodes"]) if "light" not in n]
                if k == "move":
                    if len(hosts) < 2:
                        continue
                    i = hosts[1:][op["which"] % (len(hosts) - 1)]
                    spec["nodes"][i].update(location=op["location"], rotations=op["rotations"])
                    node = by_name[spec["nodes"][i]["name"]]
                    moved += 1
                else:
                    parent = spec["nodes"][hosts[op["which"] % len(hosts)]]["name"]
                    name = "extra-%d" % q
                    node = Node(name=name, parent=by_name[parent],
                                geometry=sc.build_shape(op["shape"], Material(refractive_index=1.5)))
                    by_name[name] = node
                    spec["nodes"].append({"name": name, "parent": hosts[op["which"] % len(hosts)], "location": op["location"],
                                          "rotations": op["rotations"], "shape": op["shape"], "components": []})
                node.pose = geom.rigid(op["location"], op["rotations"])
                if op["remove"]:
                    renderer.remove(scene)
                    for d in drawn:
                        d[1] = None
                renderer.render(scene)
                rendered = True
            elif k == "remove":
                held = [d for d in drawn if d[1] is not None]
                if not held:
                    continue
                d = held[op["which"] % len(held)]
                for i in d[0]:
                    renderer.remove_object(i)
                d[1] = None
            elif k == "clear":
                renderer.remove(scene)
                rendered = False
                for d in drawn:
                    d[1] = None
            check(what)
            evaluations += 1
        ids = [i for d in drawn for i in d[0]]
        require(len(set(ids)) == len(ids), "identifiers %s are not unique", ids)
    left = any(d[1] for d in drawn)
    return Info(nontrivial=(dropped or moved) and left, evaluations=evaluations + 1, classes=sorted(classes) + ["dropped"] * bool(dropped))


# ------------------------------------------------------------------- many rays
@st.composite
def long_case(draw):
    return {"seed": draw(seeds), "lines": draw(st.sampled_from([1100, 4200, 12000, 12000, 34000, 70000])),
            "max": draw(st.sampled_from([None, 1, 3, 40])), "first": draw(st.integers(0, 5)),
            "points": draw(st.sampled_from([2, 5, 30])), "baubles": draw(st.booleans())}


def long_prop(case):
    """What was drawn first stays, whatever is drawn later and makes way."""
    from pvtrace.light.event import Event
    from pvtrace.light.ray import Ray
    from pvtrace.scene.renderer import MeshcatRenderer

    rng = np.random.default_rng(case["seed"])
    n = case["points"]
    rays = lambda k: [(tuple(p), (0.0, 0.0, 1.0), float(w)) for p, w in zip(rng.uniform(-5, 5, (k, 3)).tolist(), rng.uniform(380, 780, k))]
    with screens() as made:
        renderer = MeshcatRenderer(zmq_url="tcp://127.0.0.1:6000", max_histories=case["max"])
        screen, = made
        kept, histories, ids = [], [], []
        for _ in range(case["first"]):
            path = rays(4)
            ids += renderer.add_ray_path([Ray(p, u, w) for p, u, w in path])
            kept.append(of_path(path))
        done = 0
        while done < case["lines"]:
            path = [r + (Event.GENERATE if i == 0 else Event.TRANSMIT if i % 3 == 1 else Event.REFLECT,) for i, r in enumerate(rays(n))]
            ids += renderer.add_history([(Ray(*r[:3]), r[3]) for r in path], baubles=case["baubles"])
            histories.append([r[:3] + (r[3].name,) for r in path])
            done += n - 1
        require(len(set(ids)) == len(ids), "of %d identifiers %d are different", len(ids), len(set(ids)))
        require(all(isinstance(i, str) for i in ids), "identifiers are not strings")
        stay = histories if case["max"] is None else histories[-case["max"]:]
        left = sum(len(x[1]) for x in screen.shown() if x[0] == "lines")
        due = sum(len(d.lines) for d in kept) + (n - 1) * len(stay)
        require(left == due, "after %d lines %d are on show, should be %d", done, left, due)
        if len(stay) > 200 // n:
            stay = stay[:0]
            few = Screen()
            at = {tuple(np.float32(d)) for k in kept for a, b, _ in k.lines for d in (a,)}
            few.objects = {p: o for p, o in screen.objects.items() for x in [screen.shown([p])[0]]
                           if x[0] == "lines" and tuple(np.float32(x[1][0][0])) in at}
            few.transforms = screen.transforms
            screen = few
        compare(screen, [], kept + [of_history(h, baubles=case["baubles"]) for h in stay], None, "after %d lines" % done)
    return Info(nontrivial=done > 10000 and case["first"] > 0, evaluations=len(histories), classes=[
        "lines > 10000" if done > 10000 else "fewer", "max %s" % case["max"]])


# --------------------------------------------------------------------- the CLI
@st.composite
def cli_case(draw):
    c = draw(sf.document(mesh=draw(st.booleans()), hist=False, record=False))
    c["command"] = draw(st.sampled_from(["show", "simulate", "simulate", "simulate"]))
    c["rays"] = draw(st.integers(1, 25))
    c["seed"] = draw(seeds)
    c["workers"] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    c["end_rays"] = draw(st.booleans())
    c["every"] = draw(st.sampled_from([None, 1, 1, 2, 3, 7]))
    c["max"] = draw(st.sampled_from([None, 1, 2, 5, 40]))
    c["wireframe"] = draw(st.sampled_from([None, True, False]))
    return c


def viewed(args, folder, limit=120):
    """The command in a process of its own: (exit code, output, exception, [screens as the commands left them, all lines])."""
    import pickle

    path = os.path.join(folder, "screen.pickle")
    pid = os.fork()
    if not pid:
        try:
            os.setsid()
            seen = []

            def watch(screen, path):
                seen.extend((x.ravel(), s[2]) for s in screen.shown([path]) if s[0] == "lines" for x in s[1])

            from typer.testing import CliRunner
            from pvtrace.cli import main

            with screens() as made:
                original = Screen.__init__

                def init(self, *a, **k):
                    original(self, *a, **k)
                    self.watch = watch
                Screen.__init__ = init
                r = CliRunner().invoke(main.app, args)
                out = [r.exit_code, r.output, repr(r.exception), [(s.objects, s.transforms) for s in made], seen]
            with open(path, "wb") as fp:
                pickle.dump(out, fp)
        finally:
            os._exit(0)
    end = time.time() + limit
    while time.time() < end:
        if os.waitpid(pid, os.WNOHANG)[0]:
            break
        time.sleep(0.01)
    else:
        with contextlib.suppress(ProcessLookupError):
            os.killpg(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return None, "", "still running after %d s" % limit, [], []
    with contextlib.suppress(ProcessLookupError):
        os.killpg(pid, signal.SIGKILL)
    if not os.path.exists(path):
        return None, "", "no result", [], []
    with open(path, "rb") as fp:
        return pickle.load(fp)


def cli_prop(case):
    from pvtrace.algorithm import photon_tracer
    from pvtrace.cli.parse import parse

    with scratch() as folder:
        path = sf.write(case, folder)
        scene = parse(path)
        solids = [solid_of_node(n) for n in scene.root.descendants if n.geometry is not None]
        flags = ["--wireframe"] if case["wireframe"] else ["--no-wireframe"] if case["wireframe"] is False else []
        look = {"wireframe": case["wireframe"] is not False, "opacity": 0.5}
        if case["command"] == "show":
            code, text, exc, made, _ = viewed(["show", "tcp://127.0.0.1:6000", path] + flags, folder)
            require(code == 0, "show ends with %s %s\n%s", code, exc, text[-500:])
            s = Screen()
            (s.objects, s.transforms), = made
            compare(s, solids, [], look, "show")
            return Info(nontrivial=len(solids) > 1, evaluations=1, classes=["show"])
        try:        # outside of a spectrum, or an edge of a mesh: not here
            np.random.seed(case["seed"] % 2 ** 32)
            for ray in scene.emit(case["rays"]):
                list(photon_tracer.step_forward(scene, ray))
        except Exception as e:
            return Info(nontrivial=False, classes=["no reference: " + type(e).__name__])
        args = ["simulate", path, "-r", str(case["rays"]), "-w", str(case["workers"]), "--zmq", "tcp://127.0.0.1:6000"] + flags
        args += ["--end-rays"] * case["end_rays"]
        if case["workers"] == 1:
            args += ["--seed", str(case["seed"] % 2 ** 32)]
        args += [] if case["every"] is None else ["--render-every", str(case["every"])]
        args += [] if case["max"] is None else ["--render-max", str(case["max"])]
        code, text, exc, made, seen = viewed(args, folder)
        require(code == 0, "%s ends with %s %s\n%s", args, code, exc, text[-500:])
        con = sqlite3.connect(os.path.splitext(path)[0] + ".sqlite3")
        try:
            rows = con.execute("SELECT throw_id, x, y, z, i, j, k, wavelength, kind FROM ray INNER JOIN event ON "
                               "ray.rowid = event.ray_id ORDER BY ray.rowid").fetchall()
        finally:
            con.close()
        throws = {}
        for r in rows:
            throws.setdefault(r[0], []).append((r[1:4], r[4:7], r[7], r[8]))
        drawings = {t: of_history(h) for t, h in throws.items()}
        s = Screen()
        (s.objects, s.transforms), = made
        every, most = case["every"] or 10, case["max"] or 1
        due = [t for t in sorted(throws) if (t + 1) % every == 0]
        what = "%d rays, every %d-th" % (case["rays"], every)
        if case["workers"] == 1:        # the first ray may be shown too
            plans = [due] + [[0] + due] * (0 not in due)
            totals = [sum(len(drawings[t].lines) for t in plan) for plan in plans]
            plan = plans[int(np.argmin([abs(t - len(seen)) for t in totals]))]
            check_lines([(e.reshape(2, 3), c) for e, c in seen], [x for t in plan for x in drawings[t].lines], what + " in turn")
            compare(s, solids, [drawings[t] for t in plan[-most:]], None, what + ", on show %s" % plan[-most:])
        else:
            ends = np.array([e for e, _ in seen]) if seen else np.zeros((0, 6))
            for t in due:
                for a, b, w in drawings[t].lines:
                    e = np.abs(ends - np.concatenate([a, b])).max(axis=1) if len(ends) else np.array([1.0])
                    require(e.min() <= tolerance(a, b) or np.abs(a - b).max() < 4 * tolerance(a, b), "%s: the line of ray %d "
                            "from %s to %s is not shown", what, t, a, b)
            sizes = sorted(len(h) - 1 for h in throws.values())
            require(len(seen) <= sum(sizes[-(case["rays"] // every + case["workers"]):]), "%s: %d lines are shown", what, len(seen))
            lines = sum(len(x[1]) for x in s.shown() if x[0] == "lines")
            require(lines <= sum(sizes[-most:]), "%s: %d lines are shown, %d rays should be", what, lines, most)
            plan = due
        return Info(nontrivial=len(plan) > most, evaluations=len(throws) + 1, classes=[
            "simulate", "workers" if case["workers"] > 1 else "one worker", "every %d" % every, "max %d" % most])


# ------------------------------------------------------------------ the device
@st.composite
def device_case(draw):
    from harness.checks import c19

    c = draw(c19.device(12))
    c["show"] = {}
    if draw(st.booleans()):
        c["show"]["world_segment"] = draw(st.sampled_from(["short", "exclude"]))
    if draw(st.booleans()):
        c["show"]["baubles"] = draw(st.booleans())
    if draw(st.booleans()):
        c["show"]["short_length"] = draw(lognum(0.05, 2))
    if draw(st.booleans()):
        c["show"]["bauble_radius"] = draw(lognum(0.005, 0.2))
    if draw(st.booleans()):
        c["show"]["wireframe"] = draw(st.booleans())
    trap = c["components"] and c["components"][0]["name"] in ("dense", "clear")
    c["times"] = [draw(st.integers(1, 2 if trap else 40)) for _ in range(draw(st.integers(1, 3)))]
    return c


def device_prop(case):
    import warnings

    from harness.checks import c19

    size = case["size"]
    with screens() as made, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        time.sleep = lambda s: None
        dev = c19.Device(case)
        dev.lsc.show(**case["show"])
        require(len(made) == 1, "show opens %d viewers", len(made))
        screen = made[0]
        solids = [s for s in screen.shown()]
        half = np.array(size) / 2
        plate = ("triangles", np.array(list(itertools.product(*[(-h, h) for h in half]))), float(np.prod(size)))
        require(any(same_solid(plate, s) for s in solids), "the plate of size %s is not shown", size)
        require(not any(s[0] == "lines" for s in solids), "lines are shown before any ray is traced")
        opts = {"world_segment": "short", "baubles": True, "short_length": min(size) * 0.1, "bauble_radius": min(size) * 0.05}
        opts.update({k: v for k, v in case["show"].items() if k != "wireframe"})
        before = {p: o for p, o in screen.objects.items()}
        drawings, evaluations = [], 0
        for n in case["times"]:
            done = len(dev.histories)
            dev.simulate(n)
            for h in dev.histories[done:]:
                d = of_history([(r.position, r.direction, r.wavelength, e.name) for r, e, _ in h], **opts)
                if d is not None:
                    drawings.append(d)
            require(all(screen.objects.get(p) is o for p, o in before.items()), "tracing changed what is shown of the device")
            rest = Screen()
            rest.objects = {p: o for p, o in screen.objects.items() if p not in before}
            rest.transforms = screen.transforms
            compare(rest, [], drawings[-50:], None, "after %d rays" % len(dev.histories))
            evaluations += 1
    return Info(nontrivial=len(drawings) > 50, evaluations=evaluations + 1, classes=sorted(case["show"]))


# ----------------------------------------------------------------- the colours
def colour_case():
    return st.fixed_dictionaries({"w": st.lists(st.one_of(WAVELENGTHS, num(0, 5000)), min_size=1, max_size=40),
                                  "rgb": st.lists(st.integers(-40, 400), min_size=3, max_size=3)})


def colour_prop(case):
    from pvtrace.light.utils import rgb_to_hex_int, wavelength_to_hex_int, wavelength_to_rgb

    for w in case["w"]:
        c = wavelength_to_rgb(w)
        require(len(c) == 3 and all(isinstance(x, int) and 0 <= x <= 255 for x in c), "the colour of %r nm is %s", w, c)
        h = wavelength_to_hex_int(w)
        require(h == c[0] << 16 | c[1] << 8 | c[2], "the colour of %r nm is %s and %06x", w, c, h)
        require(has_colour(h, w), "the colour of %r nm is %s, should be %s", w, c, rgb(math.floor(w)))
    a = [max(0, min(255, x)) for x in case["rgb"]]
    h = rgb_to_hex_int(tuple(case["rgb"]))
    require(h == a[0] << 16 | a[1] << 8 | a[2], "%s as one number is %06x", case["rgb"], h)
    return Info(nontrivial=any(380 <= w <= 780 for w in case["w"]), evaluations=len(case["w"]))


PARTS = [
    Part("screen", screen_case, screen_prop, quick=1200, thorough=40000, shards=8,
         rule="a history had to make way or a solid moved, and something drawn remained"),
    Part("long", long_case, long_prop, quick=16, thorough=400, shards=8, rule="more than 10000 lines, and some that have to stay"),
    Part("cli", cli_case, cli_prop, quick=64, thorough=1500, shards=8, rule="more rays were shown than may stay"),
    Part("device", device_case, device_prop, quick=120, thorough=2000, shards=8, rule="more rays were shown than may stay"),
    Part("colours", colour_case, colour_prop, quick=800, thorough=20000, shards=4, rule="a visible wavelength"),
]
