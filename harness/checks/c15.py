"""C15: the database and its count, spectrum and time queries tell the truth."""
import contextlib
import csv
import io
import json
import math
import os
import random
import re
import shutil
import signal
import sqlite3
import tempfile
import time

import numpy as np
from hypothesis import strategies as st

from harness import scenefile as sf
from harness.core import Info, Part, Violation, require
from harness.gen import lognum, num, seeds, unit_vector

ID = "C15"
RULE = ("store: a case is a generated scene document simulated through the CLI (its seed, workers, end rays, an old "
        "database); every stored row is compared with the stream of events of the parsed scene for that seed, several "
        "workers with the rules every stream keeps; then count queries on the database are compared with the stream. "
        "query: a case is a set of made-up histories (names with quotes, wildcards, spaces, leading dashes; repeated "
        "crossings; normals at the limit of the tolerance; missing values) written with the writer of the CLI, and "
        "generated count, spectrum and time commands in csv, json and plot, compared with a direct evaluation over the "
        "histories; a database of the end rays must answer the same. Evaluations are rows and queries compared. "
        "Non-trivial: some query of the case with a proper part of the rays as answer.")
ASSUMPTIONS = ["an empty string as source or facet means no filter", "count lost ignores --facet",
               "csv and json are parsed, the plot is judged by the numbers it prints"]

SURFACE = {"entering": ("TRANSMIT", "adjacent"), "escaping": ("TRANSMIT", "container"), "reflected": ("REFLECT", "adjacent")}
VOLUME = {"lost": "NONRADIATIVE", "reacted": "REACT", "killed": "KILL"}
END = ("GENERATE", "NONRADIATIVE", "REACT", "KILL", "EXIT")


def is_end(kind, meta):
    meta = meta or {}
    if kind in END:
        return True
    if kind == "REFLECT":
        return meta["hit"] == meta["adjacent"]
    return kind == "TRANSMIT" and meta["hit"] in (meta["adjacent"], meta["container"])


def invoke(args):
    from typer.testing import CliRunner
    from pvtrace.cli import main

    with contextlib.redirect_stdout(io.StringIO()) as other:
        r = CliRunner().invoke(main.app, args)
    return r.exit_code, r.output + other.getvalue(), r.exception


def isolated(args, folder, limit=120):
    """invoke() in a process of its own, which is ended when it takes too long: it may wait forever."""
    path = os.path.join(folder, "output.json")
    pid = os.fork()
    if not pid:
        try:
            os.setsid()
            try:
                code, text, exc = invoke(args)
            except Exception as e:
                code, text, exc = None, "", e
            with open(path, "w") as fp:
                json.dump([code, text, repr(exc)], fp)
        finally:
            os._exit(0)
    end = time.time() + limit
    while time.time() < end:
        if os.waitpid(pid, os.WNOHANG)[0]:
            break
        time.sleep(0.01)
    else:
        with contextlib.suppress(ProcessLookupError):
            os.killpg(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return None, "", "still running after %d s" % limit
    with contextlib.suppress(ProcessLookupError):
        os.killpg(pid, signal.SIGKILL)
    if not os.path.exists(path):
        return None, "", "the process ended"
    with open(path) as fp:
        return json.load(fp)


def rows(db):
    con = sqlite3.connect(db)
    try:
        n = con.execute("SELECT COUNT(*) FROM ray").fetchone()[0], con.execute("SELECT COUNT(*) FROM event").fetchone()[0]
        out = con.execute("SELECT throw_id, x, y, z, i, j, k, wavelength, source, travelled, duration, kind, component, hit, "
                          "container, adjacent, facet, ni, nj, nk FROM ray INNER JOIN event ON ray.rowid = event.ray_id "
                          "ORDER BY ray.rowid").fetchall()
    finally:
        con.close()
    require(n[0] == n[1] == len(out), "%d rays and %d events are stored, %d belong together", n[0], n[1], len(out))
    return out


def row(throw, ray, kind, meta):
    meta = meta or {}
    normal = meta.get("normal") or (None,) * 3
    return (throw,) + tuple(float(v) for v in tuple(ray.position) + tuple(ray.direction)) + (
        None if ray.wavelength is None else float(ray.wavelength), ray.source, float(ray.travelled), float(ray.duration),
        kind, meta.get("component"), meta.get("hit"), meta.get("container"), meta.get("adjacent"), meta.get("facet")
    ) + tuple(None if v is None else float(v) for v in normal)


# ---------------------------------------------------------------- the answers
def distinct(data, q, column):
    """The answer of a query over rows, as a set: throw ids, or (throw id, value)."""
    out = set()
    for r in data:
        kind, hit, container, adjacent, facet, normal = r[11], r[13], r[14], r[15], r[16], r[17:20]
        if q["event"] in SURFACE:
            want, side = SURFACE[q["event"]]
            if kind != want or hit != q["node"] or (adjacent if side == "adjacent" else container) != q["node"]:
                continue
            if any(v is not None and (n is None or not abs(v - n) <= q.get("atol", 1e-6))
                   for v, n in zip(q.get("normal") or (None,) * 3, normal)):
                continue
            if q.get("facet") and facet != q["facet"]:
                continue
        elif kind != VOLUME[q["event"]] or container != q["node"]:
            continue
        if q.get("source") and r[8] != q["source"]:
            continue
        out.add(r[0] if column is None else (r[0], r[column]))
    return out


def arguments(q, db):
    args = [q["command"], q["event"]]
    for name, v in zip(("--nx", "--ny", "--nz"), q.get("normal") or ()):
        if v is not None:
            args.append("%s=%r" % (name, v))
    if "atol" in q:
        args.append("--atol=%r" % q["atol"])
    for name in ("facet", "source"):
        if q.get(name):
            args.append("--%s=%s" % (name, q[name]))
    if q["command"] != "count":
        args += ["--output", q["output"]] if q["output"] != "default" else []
        args += ["--vertical"] * bool(q.get("vertical"))
    return args + ["--", q["node"], db]


def judge(q, db, data):
    column = {"count": None, "spectrum": 7, "time": 10}[q["command"]]
    want = distinct(data, q, column)
    args = arguments(q, db)
    code, text, exc = invoke(args)
    require(code == 0, "%s ends with %s %r %s, the answer is %s", args, code, exc, text[-300:], sorted(want)[:5])
    if q["command"] == "count":
        require(text.strip() == str(len(want)), "%s answers %r, should be %d", args, text, len(want))
        return want
    if not want:
        require(text.strip() == "", "%s answers %r, there are no such rays", args, text)
        return want
    want = sorted(want)
    unit = "nanometers" if q["command"] == "spectrum" else "seconds"
    if q["output"] == "csv":
        try:
            table = list(csv.reader(io.StringIO(text.strip())))
            require(table and table[0][-1] == unit, "%s has the columns %s", args, table[:1])
            got = sorted((int(a), float(b)) for a, b in table[1:])
        except (ValueError, IndexError) as e:
            raise Violation("%s answers %s (%r)" % (args, text[:300], e))
    elif q["output"] == "json":
        try:
            d = json.loads(text)
            got = sorted((int(k), x) for k, v in d[unit].items() for x in (v if isinstance(v, list) else [v]))
        except (ValueError, KeyError, AttributeError, TypeError) as e:
            raise Violation("%s answers %s (%r)" % (args, text[:300], e))
    else:
        if q.get("vertical"):
            require(text.strip(), "%s shows nothing", args)
            return set(want)
        bars = [re.match(r"\s*([-+]\S+)\s+-\s+([-+]\S+)\s+\[\s*(\d+)\s*\]", line) for line in text.splitlines() if line.strip()]
        require(bars and all(bars), "%s shows\n%s", args, text)
        bars = [(float(b.group(1)), float(b.group(2)), int(b.group(3))) for b in bars]
        values = [v for _, v in want]
        require(sum(b[2] for b in bars) == len(values), "%s shows %d values of %d:\n%s", args, sum(b[2] for b in bars),
                len(values), text)
        lo, hi = min(values), max(values)
        tol = 0.006 * max(abs(lo), abs(hi)) + 1e-300       # labels have three digits
        require(bars[0][0] <= lo + tol and bars[-1][1] >= hi - tol, "%s shows\n%s\nfor values from %r to %r", args, text, lo, hi)
        for i, (a, b, n) in enumerate(bars):
            sure = sum(a + tol < v < b - tol for v in values)
            most = sum(a - tol <= v <= b + tol for v in values)
            require(sure <= n <= most, "%s shows %d values between %r and %r, there are %d", args, n, a, b, sure)
        return set(want)
    require(len(got) == len(want) and all(a[0] == b[0] and math.isclose(a[1], b[1], rel_tol=1e-14, abs_tol=1e-300)
                                          for a, b in zip(got, want)), "%s answers %s, should be %s", args, got, want)
    return set(want)


# ----------------------------------------------------------------------- query
NAMES = ["box", "Box", "box ", "a'b", "a\"b", "50%", "x_y", "%", "_", "it''s", "; DROP TABLE ray;--", "né", "-n", "--facet",
         "a\\b", "*", "box; ", "1", "NULL", "tab\tname", "' OR '1'='1", "new\nline"]


@st.composite
def query_case(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=4, unique=True))
    facets = [None] + draw(st.lists(st.sampled_from(NAMES), min_size=0, max_size=2))
    sources = [None] + draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=2))
    normals = draw(st.lists(st.one_of(unit_vector(), st.sampled_from([[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [1.0, 0.0, 0.0],
                                                                     [1e-6, 0.0, 1.0]])), min_size=1, max_size=3))
    for _ in range(draw(st.integers(0, 3))):        # normals that differ in one component
        n = list(draw(st.sampled_from(normals)))
        k = draw(st.integers(0, 2))
        n[k] = -n[k] or 1.0
        normals.append(n)
    nms = draw(st.lists(num(300, 900), min_size=1, max_size=3))
    if draw(st.booleans()):
        nms.append(draw(st.sampled_from([555, 555.0, 555.0 + 2e-13, 600.123456789012])))
    times = draw(st.lists(st.one_of(lognum(1e-13, 1e-6), lognum(1e-13, 1e3)), min_size=1, max_size=3))
    if draw(st.integers(0, 3)) == 0:
        times = [times[0], times[0] * (1 + 3e-16)]
    throws = []
    for _ in range(draw(st.integers(1, 6))):
        events = []
        source = draw(st.sampled_from(sources))
        for _ in range(draw(st.integers(1, 6))):
            kind = draw(st.sampled_from(["TRANSMIT"] * 4 + ["REFLECT", "REFLECT", "NONRADIATIVE", "REACT", "KILL", "ABSORB", "EXIT",
                                         "GENERATE", "EMIT", "SCATTER"]))
            m = {}
            if kind in ("TRANSMIT", "REFLECT"):
                a, b = draw(st.sampled_from(names)), draw(st.sampled_from(names))
                m = {"container": a, "adjacent": b, "hit": draw(st.sampled_from([a, b, b])),
                     "normal": tuple(draw(st.sampled_from(normals)))}
                f = draw(st.sampled_from(facets))
                if f is not None:
                    m["facet"] = f
            elif kind in ("NONRADIATIVE", "REACT", "KILL", "ABSORB", "EMIT", "SCATTER"):
                m = {"container": draw(st.sampled_from(names))}
                if kind != "KILL":
                    m["component"] = draw(st.sampled_from(names))
            else:
                m = draw(st.sampled_from([None, {}]))
            if draw(st.integers(0, 5)) == 0:
                source = draw(st.sampled_from(sources))
            events.append([kind, m, draw(st.sampled_from(nms)), draw(st.sampled_from(times)), source])
        throws.append(events)
    many = random.Random(draw(seeds)) if draw(st.booleans()) else None
    for _ in range(draw(st.integers(1, 60)) if many else 0):
        events = []
        for _ in range(many.randint(1, 5)):
            kind = many.choice(["TRANSMIT", "TRANSMIT", "REFLECT", "REFLECT", "NONRADIATIVE", "REACT", "KILL", "EXIT"])
            m = {"container": many.choice(names)}
            if kind in ("TRANSMIT", "REFLECT"):
                m["adjacent"] = many.choice(names)
                m.update(hit=many.choice([m["container"], m["adjacent"]]), normal=tuple(many.choice(normals)))
                if many.random() < 0.7 and facets[1:]:
                    m["facet"] = many.choice(facets[1:])
            events.append([kind, None if kind == "EXIT" else m, many.choice(nms), many.choice(times), many.choice(sources)])
        throws.append(events)
    queries = []
    for _ in range(draw(st.integers(3, 8))):
        q = {"command": draw(st.sampled_from(["count", "spectrum", "time"])),
             "event": draw(st.sampled_from(list(SURFACE) * 2 + list(VOLUME))),
             "node": draw(st.sampled_from(names * 4 + ["box", "x%", "%"])),
             "output": draw(st.sampled_from(["csv", "csv", "json", "json", "plot", "default"]))}
        if draw(st.booleans()):
            q["source"] = draw(st.sampled_from([s for s in sources if s] + ["%"]))
        if q["event"] in SURFACE:
            if draw(st.booleans()):
                n = draw(st.sampled_from(normals))
                q["normal"] = [v if draw(st.integers(0, 2)) else None for v in n]
            if draw(st.integers(0, 3)) == 0:
                q["atol"] = draw(st.sampled_from([0.0, 1e-6, 0.1, 0.5, 1.0, 2.0, 1e-9]))
            if len(facets) > 1 and draw(st.integers(0, 2)) == 0:
                q["facet"] = draw(st.sampled_from(facets[1:] + ["%"]))
        if q["command"] != "count" and draw(st.integers(0, 4)) == 0:
            q["vertical"] = True
        queries.append(q)
    sharp = random.Random(draw(seeds))          # one filter at a time, taken from a stored event
    events = [e for t in throws for e in t if e[1]]
    for _ in range(8 if events else 0):
        kind, m, nm, seconds, source = sharp.choice(events)
        sides = {"TRANSMIT": ["entering", "escaping"], "REFLECT": ["reflected"]}.get(kind)
        event = sharp.choice(sides) if sides else next((k for k, v in VOLUME.items() if v == kind), "killed")
        q = {"command": sharp.choice(["count", "spectrum", "time"]), "event": event, "output": sharp.choice(["csv", "json"]),
             "node": m["hit"] if sides else m["container"]}
        what = sharp.choice(["normal"] * 4 + ["facet", "source"]) if sides else "source"
        if what == "normal":
            k = sharp.randrange(3)
            q["normal"] = [v if (i == k) == (sharp.random() < 0.8) else None for i, v in enumerate(m["normal"])]
            q["atol"] = sharp.choice([1e-6, 1e-3, 0.1])
        elif what == "facet" and m.get("facet"):
            q["facet"] = m["facet"]
        elif source:
            q["source"] = source
        queries.append(q)
    return {"throws": throws, "queries": queries, "interleaved": draw(st.booleans()), "seed": draw(seeds)}


@contextlib.contextmanager
def scratch():
    folder = tempfile.mkdtemp(prefix="verif-c15-")
    try:
        yield folder
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def query_prop(case):
    from pvtrace.cli import main
    from pvtrace.light.event import Event
    from pvtrace.light.ray import Ray

    rng = np.random.RandomState(case["seed"] % 2 ** 32)
    stream = []
    for t, events in enumerate(case["throws"]):
        for kind, meta, nm, seconds, source in events:
            ray = Ray(position=tuple(rng.normal(size=3)), direction=(0.0, 0.0, 1.0), wavelength=nm,
                      travelled=float(rng.uniform()), duration=seconds, source=source)
            meta = meta if meta is None or "normal" not in meta else dict(meta, normal=tuple(meta["normal"]))
            stream.append((t, ray, kind, meta))
    if case["interleaved"]:
        stream = [stream[i] for i in rng.permutation(len(stream))]
    with scratch() as folder:
        full, end = os.path.join(folder, "full db.sqlite3"), os.path.join(folder, "end.sqlite3")
        for path, kept in ((full, stream), (end, [s for s in stream if is_end(s[2], s[3])])):
            main.prepare_database(path)
            con = sqlite3.connect(path)
            cur = con.cursor()
            ids = [main.write_ray(cur, ray, t) for t, ray, kind, meta in kept if not (
                main.write_event(cur, Event[kind], meta, cur.execute("SELECT COALESCE(MAX(rowid), 0) + 1 FROM ray").fetchone()[0]))]
            con.commit()
            con.close()
            require(ids == list(range(1, len(kept) + 1)), "rays were stored as rows %s", ids)
        data = [row(*s) for s in stream]
        got = rows(full)
        require(got == data, "stored %s, should be %s", got, data)
        nontrivial = 0
        for q in case["queries"]:
            answer = judge(q, full, data)
            nontrivial += 0 < len({a[0] if isinstance(a, tuple) else a for a in answer}) < len(case["throws"])
            judge(q, end, data)
        require(rows(full) == data, "the queries changed the database")
    return Info(nontrivial=nontrivial > 0, evaluations=len(data) + 2 * len(case["queries"]),
                classes=sorted({q["command"] + " " + q["event"] for q in case["queries"]}))


# ----------------------------------------------------------------------- store
@st.composite
def store_case(draw):
    c = draw(sf.document(mesh=False, hist=False))
    c["rays"] = draw(st.integers(1, 25))
    c["seed"] = draw(seeds)
    c["workers"] = draw(st.sampled_from([1, 1, 1, 1, 2, 3, 4]))
    c["end_rays"] = draw(st.booleans())
    c["name"] = draw(st.sampled_from(["scene.yml", "my scene.v2.yml", "a.b/scene.yaml", "é.yml"]))
    c["old"] = draw(st.sampled_from([None, None, "overwrite", "refuse", "agree"]))
    return c


def store_prop(case):
    from pvtrace.algorithm import photon_tracer
    from pvtrace.cli.parse import parse

    poses = sf.reference
    with scratch() as folder:
        base = os.path.join(folder, os.path.dirname(case["name"]))
        os.makedirs(base, exist_ok=True)
        path = sf.write(case, base, os.path.basename(case["name"]))
        db = os.path.splitext(path)[0] + ".sqlite3"
        scene = parse(path)
        np.random.seed(case["seed"] % 2 ** 32)
        want, kinds = [], set()
        try:
            for t, ray in enumerate(scene.emit(case["rays"])):
                for ray, event, meta in photon_tracer.step_forward(scene, ray):
                    if not case["end_rays"] or is_end(event.name, meta):
                        want.append(row(t, ray, event.name, meta))
                        kinds.add(event.name)
        except (ValueError, Exception) as exc:     # outside of a spectrum, or an edge of a mesh
            return Info(nontrivial=False, classes=["no reference: " + type(exc).__name__])
        args = ["simulate", path, "-r", str(case["rays"]), "-w", str(case["workers"])]
        seeded = case["workers"] == 1
        if seeded:
            args += ["--seed", str(case["seed"] % 2 ** 32)]
        args += ["--end-rays"] * case["end_rays"]
        before = open(path).read()
        if case["old"]:
            with open(db, "w") as fp:
                fp.write("old")
            if case["old"] == "refuse":
                code, text, exc = isolated(args, folder)
                require(code not in (0, None) and open(db).read() == "old", "simulate without consent ends with %s and "
                        "leaves %r", code, open(db, "rb").read()[:20])
            args.append("--overwrite")
        code, text, exc = isolated(args, folder)
        require(code == 0, "%s ends with %s %s\n%s", args, code, exc, text[-500:])
        require(open(path).read() == before, "simulate changed the scene file")
        require(os.path.exists(db), "there is no database %s", db)
        got = rows(db)
        if seeded:
            for i, (a, b) in enumerate(zip(got, want)):
                require(a == b, "row %d is\n%s\nthe event was\n%s", i, a, b)
            require(len(got) == len(want), "%d rows are stored, there were %d events", len(got), len(want))
        names = {n.name for n in [scene.root] + list(scene.root.descendants)}
        throws = {}
        for r in got:
            throws.setdefault(r[0], []).append(r)
        require(sorted(throws) == list(range(case["rays"])), "%d rays are stored as throws %s", case["rays"], sorted(throws))
        for t, h in throws.items():
            kinds = [r[11] for r in h]
            require(kinds[0] == "GENERATE" and kinds.count("GENERATE") == 1, "throw %s has the events %s", t, kinds)
            require(kinds[-1] in ("EXIT", "NONRADIATIVE", "REACT", "KILL") and
                    sum(k in ("EXIT", "NONRADIATIVE", "REACT", "KILL") for k in kinds) == 1, "throw %s ends with %s", t, kinds)
            require(all(a[9] <= b[9] + 1e-12 and a[10] <= b[10] for a, b in zip(h, h[1:])), "throw %s is out of order: %s", t, h)
            require(all(r[13] is None or r[13] in names for r in h), "unknown node in %s", h)
            require(not case["end_rays"] or all(is_end(k, dict(hit=r[13], container=r[14], adjacent=r[15]))
                                                for k, r in zip(kinds, h)), "throw %s has events %s", t, kinds)
        data = want if seeded else got
        queries = 0
        for node in sorted(names):
            for event in list(SURFACE) + list(VOLUME):
                q = {"command": ["count", "spectrum", "time"][queries % 3], "event": event, "node": node,
                     "output": ["csv", "json", "plot"][queries // 3 % 3]}
                judge(q, db, data)
                queries += 1
    return Info(nontrivial=len(got) > 3 * case["rays"], evaluations=len(got) + queries,
                classes=["end rays"] * case["end_rays"] + ["workers" if case["workers"] > 1 else "one worker"]
                + sorted({r[11] for r in got}))


# --------------------------------------------------------------------- refused
@st.composite
def refused_case(draw):
    return {"what": draw(st.sampled_from(["seed and workers", "no database", "no file", "no event", "output"])),
            "seed": draw(st.integers(0, 2 ** 31)), "workers": draw(st.integers(2, 4)), "rays": draw(st.integers(4, 30))}


def refused_prop(case):
    with scratch() as folder:
        path = os.path.join(folder, "s.yml")
        with open(path, "w") as fp:
            fp.write("version: '1.0'\nnodes:\n  world:\n    sphere:\n      radius: 10\n      material: {refractive-index: 1}\n"
                     "  lamp:\n    light: {}\n")
        what = case["what"]
        if what == "seed and workers":
            args = ["simulate", path, "--seed", str(case["seed"]), "-w", str(case["workers"]), "-r", str(case["rays"])]
        elif what == "no file":
            args = ["simulate", path + "x"]
        elif what == "no database":
            args = ["count", "entering", "world", path + ".sqlite3"]
        elif what == "output":
            args = ["spectrum", "entering", "--output", "xml", "world", path]
        else:
            args = ["count", "leaving", "world", path]
        code, text, exc = isolated(args, folder, 60)
        require(code not in (0, None), "%s ends with %s %s\n%s", args, code, exc, text[-300:])
        require(what == "seed and workers" or sorted(os.listdir(folder)) == ["output.json", "s.yml"],
                "%s leaves %s", args, os.listdir(folder))
    return Info(nontrivial=True, classes=[what])


PARTS = [
    Part("query", query_case, query_prop, quick=800, thorough=12000, shards=8),
    Part("store", store_case, store_prop, quick=200, thorough=3000, shards=8),
    Part("refused", refused_case, refused_prop, quick=20, thorough=200, shards=2),
]
