"""Recorders: how to generate them and what they must tally."""
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import require
from harness.gen import num

SURFACE_EVENTS = ["entering", "escaping", "reflected", "exit"]
VOLUME_EVENTS = ["lost", "reacted", "killed"]
MOMENTS = ("wavelength", "angle", "duration", "pathlength")


@st.composite
def prop_range(draw, prop, half, world):
    bins = draw(st.sampled_from([1, 2, 3, 7, 20, 50]))
    if prop == "wavelength":
        lo = draw(num(300, 700))
        hi = lo + draw(num(10, 500))
        if draw(st.integers(0, 5)) == 0:
            lo, hi = 550.0, 560.0
    elif prop == "angle":
        lo, hi = draw(st.sampled_from([(0.0, math.pi / 2), (0.2, 0.9), (-0.5, 1.0), (0.6, 2.0)]))
    elif prop == "duration":
        lo, hi = draw(st.sampled_from([(0.0, 2e-9), (0.0, 1e-7), (1e-10, 5e-10), (5e-11, 2e-8)]))
    elif prop == "pathlength":
        lo = draw(st.sampled_from([0.0, 0.0, 1.0, 3.0]))
        hi = lo + draw(num(0.5, 4 * world))
    else:
        h = draw(st.sampled_from([half, half * 0.6, world]))
        lo, hi = draw(st.sampled_from([(-h, h), (0.0, h), (-h, 0.1 * h), (-0.3 * h, 0.5 * h)]))
    return [lo, hi, bins]


@st.composite
def recorder(draw, name, node, model, root):
    """A recorder spec for one solid of the scene."""
    shape = model.spec["nodes"][node]["shape"]
    events = ["entering", "escaping", "reflected", "lost", "reacted", "killed"]
    if root:
        events = ["exit", "exit", "killed", "entering"]
    event = draw(st.sampled_from(events))
    r = {"name": name, "event": event}
    if event in SURFACE_EVENTS and draw(st.integers(0, 4)) < 2:
        # A world-frame normal this shape really has
        t = shape["type"]
        if t == "box":
            local = [0.0, 0.0, 0.0]
            local[draw(st.integers(0, 2))] = draw(st.sampled_from([1.0, -1.0]))
        elif t == "cylinder" and draw(st.booleans()):
            local = [0.0, 0.0, draw(st.sampled_from([1.0, -1.0]))]
        else:
            phi, z = draw(num(0, 6.28)), draw(num(-1, 1))
            if t == "cylinder":
                z = 0.0
            s = math.sqrt(1 - z * z)
            local = [s * math.cos(phi), s * math.sin(phi), z]
        r["facet"] = [float(v) for v in model.world_vec(node, local)]
        k = draw(st.integers(0, 3))
        if k == 0:
            r["atol"] = draw(st.sampled_from([1e-9, 1e-3, 0.05]))
        elif k >= 2 or t == "sphere":
            r["atol"] = draw(num(0.1, 0.9))
    b = model.spec["nodes"][node]["shape"]
    half = {"box": lambda: 0.5 * max(b["size"]), "sphere": lambda: b["radius"],
            "cylinder": lambda: max(b["radius"], 0.5 * b["length"]),
            "mesh": lambda: float(np.max(np.abs(b["vertices"])))}[b["type"]]()
    world = 5.0
    hists = []
    props = ["wavelength", "angle", "duration", "pathlength", "x", "y", "z"]
    for _ in range(draw(st.integers(0, 3))):
        a = draw(st.sampled_from(props))
        h = {"prop": a, "range": draw(prop_range(a, half, world))}
        if draw(st.integers(0, 2)) == 0:
            bprop = draw(st.sampled_from(props))
            h["prop_b"] = bprop
            h["range_b"] = draw(prop_range(bprop, half, world))
        hists.append(h)
    r["histograms"] = hists
    return r


@st.composite
def with_recorders(draw, scene_strategy, max_recorders=8):
    from harness import scenes as sc

    spec = draw(scene_strategy)
    model = sc.Model(spec)
    for k in range(draw(st.integers(2, max_recorders))):
        node = draw(st.sampled_from(model.solids))
        rec = draw(recorder("rec-%d" % k, node, model, node == 0))
        spec["nodes"][node].setdefault("recorders", []).append(rec)
    return spec


# ------------------------------------------------------------------ reference
class Expected:
    def __init__(self, rec):
        self.rec = rec
        self.rays = 0
        self.crossings = 0
        self.doubtful = 0   # facet comparisons within rounding of the tolerance
        self.rows = []      # one dict of values per distinct ray


def expected(model, histories):
    """Tallies of generated histories, straight from the definition."""
    out = {}
    watch = []
    for i, node in enumerate(model.spec["nodes"]):
        for rec in node.get("recorders", []):
            e = Expected(rec)
            out[rec["name"]] = e
            watch.append((i, node["name"], rec, e))
    for h in histories:
        counted = set()
        for k, (ray, event, m) in enumerate(h):
            m = m or {}
            kind = event.name
            for i, name, rec, e in watch:
                want = rec["event"]
                if want == "entering":
                    ok = kind == "TRANSMIT" and m.get("hit") == name and m.get("adjacent") == name
                elif want == "escaping":
                    ok = kind == "TRANSMIT" and m.get("hit") == name and m.get("container") == name
                elif want == "reflected":
                    ok = kind == "REFLECT" and m.get("hit") == name and m.get("adjacent") == name
                elif want == "exit":
                    ok = kind == "EXIT" and m.get("hit") == name
                else:
                    ok = kind == {"lost": "NONRADIATIVE", "reacted": "REACT",
                                  "killed": "KILL"}[want] and m.get("container") == name
                if not ok:
                    continue
                local = model.local(i, np.asarray(ray.position, float))
                normal = None
                if want in SURFACE_EVENTS:
                    normals, margin = model.shapes[i].normals(local[None])
                    normal = np.asarray(model.world_vec(i, normals[0]))
                    if margin[0] < 1e-6:
                        e.doubtful += 1     # on an edge: two normals to choose from
                        continue
                if rec.get("facet") is not None:
                    gap = np.abs(np.asarray(rec["facet"]) - normal) - rec.get("atol", 1e-6)
                    doubtful = bool(np.any(np.abs(gap) < 1e-7)) and not bool(np.any(gap > 1e-7))
                    if doubtful:
                        e.doubtful += 1
                        continue
                    if np.any(gap > 0):
                        continue
                e.crossings += 1
                if rec["name"] in counted:
                    continue
                counted.add(rec["name"])
                e.rays += 1
                angle = 0.0
                if normal is not None:
                    before = h[k - 1][0].direction
                    angle = math.acos(min(1.0, abs(float(np.dot(before, normal)))))
                e.rows.append({"wavelength": ray.wavelength, "angle": angle,
                               "duration": ray.duration, "pathlength": ray.travelled,
                               "x": float(local[0]), "y": float(local[1]), "z": float(local[2])})
    return out


SLOP = {"wavelength": 1e-9, "angle": 3e-6, "duration": 1e-18, "pathlength": 1e-7,
        "x": 1e-7, "y": 1e-7, "z": 1e-7}


def bin_choices(value, prop, rng):
    """Bins (or -1) the value may be counted in: two near an edge."""
    lo, hi, n = rng
    x = (value - lo) / (hi - lo) * n
    s = SLOP[prop] / (hi - lo) * n + 1e-9 * max(1.0, abs(x))
    out = set()
    for v in (x - s, x + s):
        k = math.floor(v)
        out.add(k if 0 <= k < n else -1)
    return out


def compare(model, histories, results, what):
    """Compare {name: RecorderResult} with the histories they came from."""
    want = expected(model, histories)
    require(set(results) == set(want), "%s reports recorders %s, the scene has %s",
            what, sorted(results), sorted(want))
    touched = 0
    multi = 0
    for name, e in want.items():
        r = results[name]
        rec = e.rec
        tag = "%s: recorder %s" % (what, {k: v for k, v in rec.items() if k != "histograms"})
        if e.doubtful:
            continue
        require(r.crossings == e.crossings, "%s has %d crossings, the histories have %d",
                tag, r.crossings, e.crossings)
        require(r.rays == e.rays, "%s has %d rays, the histories have %d", tag, r.rays, e.rays)
        touched += e.rays > 0
        multi += e.crossings > e.rays
        for p in MOMENTS:
            v = np.array([row[p] for row in e.rows])
            if len(v) == 0:
                require(all(math.isnan(f(p)) for f in (r.mean, r.std, r.error)),
                        "%s: statistics of no rays are %s", tag, (r.mean(p), r.std(p), r.error(p)))
                continue
            scale = float(np.sqrt(np.mean(v * v))) + 1e-300
            tol = 1e-9 if p != "angle" else 1e-5
            require(abs(r.mean(p) - v.mean()) <= tol * scale + SLOP[p],
                    "%s: mean %s is %r, of the histories %r", tag, p, r.mean(p), v.mean())
            # from sums of squares, whose rounding grows with their number
            slack = (3e-7 + 3 * math.sqrt(tol) * 1e-2 + math.sqrt(2.3e-16 * len(v))) * scale
            require(abs(r.std(p) - v.std()) <= slack,
                    "%s: std of %s is %r, of the histories %r", tag, p, r.std(p), v.std())
            require(abs(r.error(p) - v.std() / math.sqrt(len(v)))
                    <= slack / math.sqrt(len(v)),
                    "%s: error of %s is %r", tag, p, r.error(p))
        for k, h in enumerate(rec["histograms"]):
            got = r.histogram(k)
            if "prop_b" in h:
                ea, eb, counts = got
                counts = np.asarray(counts)
                na, nb = h["range"][2], h["range_b"][2]
                require(counts.shape == (na, nb), "%s: heatmap %d has shape %s", tag, k, counts.shape)
                require(np.allclose(eb, np.linspace(*h["range_b"][:2], nb + 1)),
                        "%s: heatmap edges %s", tag, eb)
            else:
                ea, counts = got
                counts = np.asarray(counts)
                na, nb = h["range"][2], 0
                require(counts.shape == (na,), "%s: histogram %d has shape %s", tag, k, counts.shape)
            require(np.allclose(ea, np.linspace(*h["range"][:2], na + 1)),
                    "%s: histogram edges %s", tag, ea)
            low = np.zeros((na + 1, nb + 1), int)   # last row/column: left out
            high = np.zeros((na + 1, nb + 1), int)
            for row in e.rows:
                ca = bin_choices(row[h["prop"]], h["prop"], h["range"])
                cb = {-1} if not nb else bin_choices(row[h["prop_b"]], h["prop_b"], h["range_b"])
                cells = set()
                for a in ca:
                    for b in cb:
                        cells.add((-1, -1) if a < 0 or (nb and b < 0) else (a, b))
                for c in cells:
                    high[c] += 1
                if len(cells) == 1:
                    low[next(iter(cells))] += 1
            if nb:
                lo_, hi_ = low[:na, :nb], high[:na, :nb]
            else:
                lo_, hi_ = low[:na, -1], high[:na, -1]
            require(np.all(counts >= lo_) and np.all(counts <= hi_),
                    "%s: histogram %d %s is %s, of the histories between %s and %s",
                    tag, k, h, counts.tolist(), lo_.tolist(), hi_.tolist())
            left = counts.sum()
            require(e.rays - high[-1, -1] <= left <= e.rays - low[-1, -1],
                    "%s: histogram %d %s holds %d of %d rays, %d to %d are outside the range",
                    tag, k, h, left, e.rays, low[-1, -1], high[-1, -1])
    return touched, multi
