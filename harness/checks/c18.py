"""C18: what the studio streams while it runs is what the engine computes."""
import contextlib
import io
import os
import queue
import threading
import warnings

import numpy as np
import yaml
from hypothesis import strategies as st

from harness import scenefile as sf
from harness.checks.c17 import fast_schemas, quiet, renamed, scratch
from harness.core import Info, Part, Violation, require
from harness.gen import seeds

ID = "C18"
RULE = ("A case is a generated scene document with recorders and a sequence of runs over the websocket, each with its "
        "own number of rays, bundle size, seed, histories kept and paths asked for, left to finish, stopped, overtaken "
        "by the next run, or during which the document is replaced; some have parameters that cannot work. Every "
        "message is compared with single runs of the engine over the same rays. Evaluations are messages. Non-trivial: "
        "some recorder counted rays and some run took several bundles.")
ASSUMPTIONS = ["lights draw from numpy's global generator, which is seeded before a run left to finish; runs that are "
               "interrupted have lights that emit the same ray each time",
               "engine runs with a seed and without bundles do what C05-C10 say",
               "no answer within 60 seconds means that none will come"]


@st.composite
def case(draw):
    c = renamed(draw(sf.document(mesh=False, hist=False)))
    fixed = draw(st.booleans())
    for k, section in c["doc"]:
        if k == "components":
            for _, n in section:
                for part in n.values():
                    for part in (part, part.get("emission")):
                        p = isinstance(part, dict) and part.get("phase-function")
                        if isinstance(p, dict) and ("lambertian" in p or "cone" in p):
                            part["phase-function"] = {"isotropic": None}  # the engine has no others in volumes
        if k == "nodes":
            solids = [n for name, n in section if name != "world" and "light" not in n and not n.get("parent")]
            for name, n in section:
                if "light" in n and solids and not n.get("parent") and draw(st.integers(0, 3)):
                    target = draw(st.sampled_from(solids)).get("location") or [0.0, 0.0, 0.0]
                    at = n.get("location") or [0.0, 0.0, 0.0]
                    away = [t - a for t, a in zip(target, at)]
                    if max(map(abs, away)) > 0.1:
                        n["direction"] = away
                if "light" in n:
                    if fixed:
                        n["light"].pop("mask", None)
                elif name != "world" and not n.get("record") and draw(st.integers(0, 2)):
                    n["record"] = True
    runs = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.one_of(st.integers(1, 40), st.integers(40, 300), st.sampled_from([0, 1])))
        least = (n + 11) // 12
        r = {"rays": n, "bundle": draw(st.one_of(st.integers(max(1, least), max(1, n)), st.just(n + 7), st.just(max(1, least)))),
             "seed": draw(st.one_of(seeds, seeds, st.sampled_from([0, 1, None]))),
             "record_every": draw(st.sampled_from([1, 1, 2, 3, 7, 50, 0])),
             "max_paths": draw(st.sampled_from([200, 200, 0, 1, 5, 17])),
             "then": draw(st.sampled_from(["wait"] * 4 + (["stop", "stop", "next", "next", "put", "leave"] if fixed else [])
                                          + ["bad"])),
             "after": draw(st.integers(0, 4)), "long": False}
        if r["then"] == "stop" and draw(st.booleans()):
            r.update(rays=4000, bundle=1, seed=draw(seeds), long=True)
        if r["then"] == "bad":
            r["rays"] = max(n, 1)
            r.update(draw(st.sampled_from([{"rays": "x"}, {"rays": None}, {"bundle": 0}, {"bundle": -3}, {"bundle": "q"},
                                           {"seed": "x"}, {"record_every": "y"}, {"max_paths": []}])))
        if fixed and r["seed"] is None:
            r["seed"] = 5
        runs.append(r)
    c["runs"] = runs
    c["np"] = draw(seeds)
    c["lone"] = draw(st.booleans())
    return c


# ------------------------------------------------------------------ reference
class Reference:
    """The engine over the same rays."""

    def __init__(self, text, folder):
        from pvtrace import engine
        from pvtrace.cli.parse import parse

        path = os.path.join(folder, ".reference.yml")
        with open(path, "w", encoding="utf-8") as fp:
            fp.write(text)
        with quiet():
            self.scene = parse(path)
        self.simulate = engine.simulate
        self.totals = {}
        self.kept = {}

    def prefix(self, seed, n):
        """Tallies of the first n rays, in a single run, with lights that always emit the same ray."""
        if (seed, n) not in self.totals:
            self.totals[seed, n] = tallies([self.simulate(self.scene, n, seed=seed, workers=1, record_every=0)])
        return self.totals[seed, n]

    def histories(self, seed, n):
        if (seed, n) not in self.kept:
            self.kept[seed, n] = polylines(self.simulate(self.scene, n, seed=seed, workers=1))
        return self.kept[seed, n]


def polylines(result):
    out = []
    for h in result.histories():
        out.append((np.array([r.position for r, _, _ in h]), np.array([r.wavelength for r, _, _ in h])))
    return out


def tallies(results):
    out = {}
    for r in results:
        for name, t in r.recorders.items():
            o = out.setdefault(name, {"rays": 0, "crossings": 0, "wavelength": 0.0, "angle": 0.0, "bins": None})
            o["rays"] += int(t.rays)
            o["crossings"] += int(t.crossings)
            for p in ("wavelength", "angle"):
                o[p] += t.mean(p) * int(t.rays) if t.rays else 0.0
            bins = [np.asarray(t.histogram(i)[-1]) for i in range(len(t.spec.histograms))]
            o["bins"] = bins if o["bins"] is None else [a + b for a, b in zip(o["bins"], bins)]
    return out


def check_recorders(got, want, what):
    require(set(got) == set(want), "%s: recorders are %s, should be %s", what, sorted(got), sorted(want))
    counted = 0
    for name, w in want.items():
        g = got[name]
        require(g["rays"] == w["rays"] and g["crossings"] == w["crossings"], "%s: recorder %r counts %d rays, %d crossings, should be %d, %d",
                what, name, g["rays"], g["crossings"], w["rays"], w["crossings"])
        for p in ("wavelength", "angle"):
            m = w[p] / w["rays"] if w["rays"] else 0.0
            require(abs(g["mean_" + p] - m) <= 1e-9 * (1 + abs(m)), "%s: recorder %r has mean %s %r, should be %r", what, name, p,
                    g["mean_" + p], m)
        require(len(g["histograms"]) == len(w["bins"]), "%s: recorder %r has %d histograms, should have %d", what, name,
                len(g["histograms"]), len(w["bins"]))
        for h, b in zip(g["histograms"], w["bins"]):
            require(h["values"] == b.ravel().tolist() and (b.ndim == 1 or h["shape"] == list(b.shape)),
                    "%s: recorder %r has histogram %s, should be %s", what, name, h, b.tolist())
        counted += w["rays"]
    return counted


def check_meta(meta, scene, what):
    """The histograms announced are those of the recorders in the scene."""
    from anytree import PreOrderIter

    from pvtrace.engine import Heatmap

    want = {r.name: (node, r) for node in PreOrderIter(scene.root) for r in node.recorders}
    require(set(meta) == set(want), "%s announces recorders %s, should be %s", what, sorted(meta), sorted(want))
    spans = []
    for name, (node, r) in want.items():
        m = meta[name]
        require(m["event"] == r.event and m["node"] == node.name and len(m["histograms"]) == len(r.histograms),
                "%s announces %r as %s", what, name, m)
        for h, s in zip(m["histograms"], r.histograms):
            if isinstance(s, Heatmap):
                require(h["kind"] == "heatmap" and h["prop_a"] == s.a.prop and h["prop_b"] == s.b.prop
                        and edges(h["edges_a"], s.a) and edges(h["edges_b"], s.b), "%s announces heatmap %s of %r, should be %s", what, h, name, s)
                spans.append((h["offset"], s.a.bins * s.b.bins))
            else:
                require(h["kind"] == "hist" and h["prop"] == s.prop and edges(h["edges"], s), "%s announces histogram %s of %r, should be %s",
                        what, h, name, s)
                spans.append((h["offset"], s.bins))
    spans.sort()
    require(all(a + n <= b for (a, n), (b, _) in zip(spans, spans[1:])), "%s announces overlapping histograms %s", what, spans)


def edges(got, s):
    want = [s.start + (s.stop - s.start) * i / s.bins for i in range(s.bins + 1)]
    return len(got) == len(want) and all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(got, want))


# ------------------------------------------------------------------ the socket
class Socket:
    def __init__(self, client):
        self.context = client.websocket_connect("/ws")
        self.ws = self.context.__enter__()

    def send(self, message):
        self.ws.send_json(message)

    def receive(self, what):
        box = queue.Queue()

        def get():
            try:
                box.put(self.ws.receive_json())
            except BaseException as e:
                box.put(e)

        t = threading.Thread(target=get, daemon=True)
        t.start()
        try:
            m = box.get(timeout=60)
        except queue.Empty:
            raise Violation("%s: no message within 60 seconds" % what)
        if isinstance(m, BaseException):
            raise Violation("%s: instead of a message: %r" % (what, m))
        return m

    def close(self):
        self.context.__exit__(None, None, None)


class Watcher:
    """Follows one run through its messages."""

    def __init__(self, run, ref, c, what):
        self.run, self.ref, self.c, self.what = run, ref, c, what
        self.traced = self.paths = self.messages = self.counted = 0
        self.results = []
        self.tested = 0
        self.state = "new"

    def take(self, m):
        what = "%s, message %d" % (self.what, self.messages)
        self.messages += 1
        kind = m["type"]
        if kind == "started":
            require(self.state == "new", "%s: %s in state %s", what, m, self.state)
            require(m["total"] == self.run["rays"], "%s: total %s, should be %s", what, m["total"], self.run["rays"])
            check_meta(m["histograms"], self.ref.scene, what)
            self.state = "running"
        elif kind == "bundle":
            require(self.state == "running", "%s: bundle in state %s", what, self.state)
            self.bundle(m, what)
        elif kind == "done":
            require(self.state == "running", "%s: done in state %s", what, self.state)
            require(m["elapsed"] >= 0, "%s: %s", what, m)
            self.state = "done"
        else:
            raise Violation("%s: %s" % (what, str(m)[:400]))
        return self.state

    def bundle(self, m, what):
        r = self.run
        n = min(r["bundle"], r["rays"] - self.traced)
        require(n > 0 and m["traced"] == self.traced + n and m["total"] == r["rays"], "%s: traced %s of %s, should be %s of %s", what,
                m["traced"], m["total"], self.traced + n, r["rays"])
        require(m["rays_per_second"] >= 0, "%s: %s rays per second", what, m["rays_per_second"])
        fixed = self.c["fixed"]
        a, b = self.traced, self.traced + n
        self.traced = b
        kept = [i for i in range(a, b) if r["record_every"] > 0 and i % r["record_every"] == 0]
        room = max(0, r["max_paths"] - self.paths)
        if r["seed"] is None:
            want = lines = None
        elif fixed:
            if r["long"] and b > 40:
                want = lines = None
            else:
                want = self.ref.prefix(r["seed"], b)
                lines = [self.ref.histories(r["seed"], 40 if r["long"] else r["rays"])[i] for i in kept]
        else:
            res = self.ref.simulate(self.ref.scene, n, seed=r["seed"] + a, first_ray=a, workers=1)
            self.results.append(res)
            every = polylines(res)
            want = tallies(self.results)
            lines = [every[i - a] for i in kept]
        if want is not None:
            self.counted += check_recorders(m["recorders"], want, what)
        if lines is not None:
            lines = [l for l in lines if len(l[0]) >= 2][:room]
            require(len(m["paths"]) == len(lines), "%s: %d paths, should be %d (histories of rays %s, at most %d more)", what,
                    len(m["paths"]), len(lines), kept, room)
            for p, (points, wavelengths) in zip(m["paths"], lines):
                x, w = np.array(p["points"], float), np.array(p["wavelengths"], float)
                require(x.shape == points.shape and np.all(np.abs(x - points) <= 1e-6 + 1e-12 * np.abs(points))
                        and w.shape == wavelengths.shape and np.all(np.abs(w - wavelengths) <= 0.0051),
                        "%s: a path is %s with wavelengths %s, the history is %s with %s", what, p["points"], p["wavelengths"],
                        points.tolist(), wavelengths.tolist())
        require(len(m["paths"]) <= room, "%s: %d paths, should be at most %d", what, len(m["paths"]), room)
        self.paths += len(m["paths"])
        self.tested += 1


def params(run):
    return dict({k: v for k, v in run.items() if k in ("rays", "bundle", "seed", "record_every", "max_paths")}, cmd="run")


def stream_prop(c):
    from fastapi.testclient import TestClient

    from pvtrace.studio.server import create_app

    fast_schemas()
    c = dict(c, fixed=all("mask" not in n["light"] for _, n in dict(c["doc"])["nodes"] if "light" in n))
    classes = set()
    messages = counted = several = 0
    with scratch() as (top, folder), quiet():
        text = sf.text(c, folder)
        sf.write_files(c, folder)
        path = os.path.join(folder, "scene.yml")
        with open(path, "w", encoding="utf-8") as fp:
            fp.write("" if c["lone"] else text)
        with TestClient(create_app(path)) as client:
            s = Socket(client)
            try:
                if c["lone"]:
                    s.send({"cmd": "run", "rays": 5})
                    m = s.receive("a run without a scene")
                    require(m["type"] == "error", "a run without a scene: %s", m)
                    r = client.put("/api/document", json={"text": text})
                    require(r.status_code == 200, "a document is refused: %s\n%s", r.text, text)
                ref = Reference(text, folder)
                previous = None
                for k, run in enumerate(c["runs"]):
                    what = "run %d %s" % (k, params(run))
                    watch = Watcher(run, ref, c, what)
                    np.random.seed(c["np"])
                    s.send(params(run))
                    # the previous run was left going on: it ends before this one starts
                    while previous is not None and previous.state != "done":
                        previous.take(s.receive(what + ", started before the previous one was over"))
                    if previous is not None:
                        messages += previous.messages
                        counted += previous.counted
                        classes.add("overtaken before the end" if previous.traced < previous.run["rays"] else "overtaken")
                        previous = None
                    if run["then"] == "bad":
                        m = s.receive(what)
                        while m["type"] == "started":
                            m = s.receive(what)
                        require(m["type"] == "error", "%s: %s", what, str(m)[:300])
                        classes.add("refused")
                        continue
                    # lights draw their rays in the same order in the reference as in the server, but not at the same time
                    early = []
                    if not c["fixed"]:
                        while not early or early[-1]["type"] not in ("done", "error"):
                            early.append(s.receive(what))
                        np.random.seed(c["np"])
                    pull = (lambda: early.pop(0)) if early else (lambda: s.receive(what))
                    stop_at = run["after"] if run["then"] in ("stop", "next", "put", "leave") else None
                    changed = None
                    while watch.state != "done":
                        if stop_at is not None and watch.messages >= stop_at:
                            stop_at = None
                            if run["then"] == "stop":
                                s.send({"cmd": "stop"})
                            elif run["then"] == "next":
                                previous = watch
                                break
                            elif run["then"] == "leave":
                                s.close()
                                s = Socket(client)
                                watch.state = "left"
                                break
                            elif watch.state == "running":
                                changed = other(c, folder)
                                r = client.put("/api/document", json={"text": changed})
                                require(r.status_code == 200, "a document is refused: %s\n%s", r.text, changed)
                        watch.take(pull())
                    if previous is watch:
                        continue
                    if changed:
                        ref = Reference(changed, folder)
                        classes.add("document replaced during a run")
                    messages += watch.messages
                    counted += watch.counted
                    several += watch.tested > 1
                    if watch.state == "left":
                        classes.add("left")
                    elif run["then"] == "stop":
                        classes.add("stopped" if watch.traced < run["rays"] else "stopped late")
                        require(not run["long"] or watch.traced < run["rays"], "%s: all %d rays are traced although the run was stopped",
                                what, run["rays"])
                    else:
                        require(watch.traced == run["rays"], "%s: done after %d rays", what, watch.traced)
                        classes.add("complete")
                    if watch.paths:
                        classes.add("paths")
                if previous is not None:
                    while previous.state != "done":
                        previous.take(s.receive("the last run"))
                    require(previous.traced == previous.run["rays"], "the last run is done after %d of %d rays", previous.traced,
                            previous.run["rays"])
                    messages += previous.messages
                    several += previous.tested > 1
                    counted += previous.counted
            finally:
                s.close()
    return Info(counted > 0 and several > 0, sorted(classes), messages)


def other(c, folder):
    """Another document: the same with one more recorder on the world, and denser solids."""
    doc = sf.completed(sf.plain(c), folder)
    doc["recorders"] = dict(doc.get("recorders") or {}, **{"one-more": {"node": "world", "event": "exit"}})
    return yaml.safe_dump(doc, sort_keys=False)


PARTS = [Part("stream", case, stream_prop, quick=1400, thorough=12000, shards=8,
              rule="some recorder counted rays and some run took several bundles")]
