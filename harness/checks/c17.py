"""C17: the studio's document is the single source of truth; edits do what they say and nothing else."""
import contextlib
import copy
import io
import json
import math
import os
import re
import shutil
import tempfile
import warnings

import numpy as np
import yaml
from hypothesis import strategies as st

from harness import scenefile as sf
from harness.core import Info, Part, require
from harness.gen import num

ID = "C17"
RULE = ("A case is a generated scene document with comments, opened in the studio (or none, or a broken one), and a "
        "sequence of requests: replacing the text, structured edits, uploads, saves. A dictionary edited by hand is the "
        "model; whether a document is valid is whether the command line tools accept the same file. Evaluations are "
        "requests. Non-trivial: at least one accepted edit of a document with a solid or recorder besides the world.")
ASSUMPTIONS = ["no anchors or aliases, no plain scalars that ruamel and PyYAML read differently in YAML 1.1 (1e3)",
               "a comment belongs to its line, or to the item above; it may go with an item that is deleted or replaced, "
               "and is not kept in text all in braces or within braces over several lines",
               "the scene file parser does what C16 says", "requests have the documented keys"]

GEOMS = ("box", "sphere", "cylinder")
NOTE = re.compile(r"# note-\d+;")


@contextlib.contextmanager
def scratch():
    """A folder to edit in, deep inside one that catches what goes astray, and an empty current folder."""
    top = os.path.realpath(tempfile.mkdtemp(prefix="verif-c17-"))
    folder, cwd = os.path.join(top, "a", "b", "docs"), os.path.join(top, "cwd")
    os.makedirs(folder)
    os.makedirs(cwd)
    old = os.getcwd()
    os.chdir(cwd)
    try:
        yield top, folder
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)


def contents(top):
    out = {}
    for base, _, files in os.walk(top):
        for f in files:
            path = os.path.join(base, f)
            with open(path, "rb") as fp:
                out[path] = fp.read()
    return out


# ------------------------------------------------------------------ generation
@st.composite
def operation(draw):
    pick = lambda: draw(st.integers(0, 999))
    kind = draw(st.sampled_from(["set"] * 8 + ["addkey"] * 3 + ["move"] * 3 + [
        "add-node", "add-recorder", "add-recorder", "add-face-recorders", "add-face-recorders", "add-component",
        "delete-component", "update-recorder", "update-recorder", "update-recorder", "delete-recorder",
        "delete-recorder", "delete-node", "churn", "churn", "churn", "put", "put", "put", "upload", "upload", "save", "get", "unknown"]))
    if kind == "set":
        return [kind, pick(), pick(), draw(st.sampled_from(["scale", "scale", "scale", "scale", "tiny", "int", "word", "zero",
                                                            "negative", "null", "list", "bool", "sub"])),
                draw(num(0.5, 1.5))]
    if kind == "addkey":
        return [kind, pick(), pick(), draw(num(0.1, 2.0))]
    if kind == "move":
        return [kind, pick(), [draw(st.one_of(num(-5, 5), num(-1e-4, 1e-4), st.sampled_from([0.0, 1.0, 1e6])))
                               for _ in range(3)]]
    if kind == "add-node":
        return [kind, draw(st.sampled_from(["box", "sphere", "cylinder", "light", "mesh", "cone"]))]
    if kind == "churn":         # additions and deletions of what was added
        return [kind, draw(st.sampled_from(["box", "sphere", "cylinder", "light", "recorder", "component"])),
                draw(st.lists(st.integers(-1, 3), min_size=3, max_size=6)), pick()]
    if kind == "update-recorder":
        changes = {}
        for key, values in (("event", ["lost", "escaping", "reflected", "entering", "bogus"]),
                            ("facet", [[0, 0, 1], [0.6, 0.0, 0.8], [1e-6, 0, -1], None, [0, 1]]),
                            ("atol", [1e-6, 0.01, 1e-5, -1]), ("node", ["world"])):
            if draw(st.integers(0, 2)) == 0:
                changes[key] = draw(st.sampled_from(values))
        return [kind, pick(), changes]
    if kind == "put":
        return [kind, draw(st.sampled_from(["same", "edit", "edit", "style", "style", "style", "ending", "nan", "cut", "text"])), pick(),
                draw(num(0.5, 1.5))]
    if kind == "upload":
        name = draw(st.sampled_from([
            "data.csv", "data.TXT", "0.csv", "1.csv", "2.csv", "a b.csv", ".csv", "../up.csv", "../../up.txt", "sub/x.csv",
            "@/abs.csv", "..", "", "csv", "scene.yml", "data.csv.yml", "data.csv/", "x\0.csv", "n" * 300 + ".csv", "sub.csv",
            "über.csv", "\ud800.csv", "a\\..\\b.csv", "scene.txt", "./1.csv"]))
        content = draw(st.sampled_from([",x,y\n0,300.0,1.0\n1,650,0.5\n2,1000.0,0.25\n", "", ",x,y\r\n0,300.0,1.0\r\n",
                                        "é\u2028\n", "\ud800 lone", "no,table", "\ufeff,x,y\n0,300,1\n1,1000,2\n"]))
        return [kind, name, content]
    if kind in ("save", "get", "add-component", "unknown"):
        return [kind]
    return [kind, pick()]


def renamed(v):
    if isinstance(v, dict):
        return {renamed(k): renamed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [renamed(x) for x in v]
    return v.replace("1e3", "l_e3") if isinstance(v, str) else v


@st.composite
def case(draw):
    c = renamed(draw(sf.document(mesh=False, hist=False)))
    c["start"] = draw(st.sampled_from(["open"] * 10 + ["broken", "none"]))
    c["notes"] = draw(st.lists(st.tuples(st.integers(0, 400), st.booleans()).map(list), max_size=12))
    c["ops"] = draw(st.lists(operation(), min_size=2, max_size=10)) + [["save"]]
    c["ending"] = draw(st.sampled_from([None, None, "", "\n\n", "\n# the end\n\n"]))
    return c


def annotated(text, notes):
    """The text with comments at the end of lines and on their own lines."""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    own, eol = {}, {}
    for k, (i, alone) in enumerate(notes):
        (own if alone else eol).setdefault(i % len(lines), k)
    out = []
    for i, line in enumerate(lines):
        out.append(line + ("  # note-%d;" % eol[i] if i in eol else ""))
        if i in own:
            rest = lines[i + 1] if i + 1 < len(lines) else ""
            out.append(" " * (len(rest) - len(rest.lstrip())) + "# note-%d;" % own[i])
    out = "\n".join(out) + "\n"
    try:
        return out if load(out) == load(text) else text
    except yaml.YAMLError:          # a comment within text over several lines
        return text


# ----------------------------------------------------------------- the document
_loaded = {}


def load(text):
    if text not in _loaded:
        _loaded.clear()
        try:
            _loaded[text] = yaml.load(text, Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))
        except yaml.YAMLError:          # libyaml is a bit stricter about braces
            _loaded[text] = yaml.safe_load(text)
    return copy.deepcopy(_loaded[text])


def fast_schemas():
    """Checking the schema of scene files itself takes most of the time; once will do."""
    import jsonschema

    for cls in {jsonschema.Draft7Validator, jsonschema.validators.validator_for({})}:
        known = set()

        def check_schema(schema, *args, _known=known, _check=cls.check_schema, **kw):
            key = json.dumps(schema, sort_keys=True)
            if key not in _known:
                _check(schema, *args, **kw)
                _known.add(key)

        if getattr(cls.check_schema, "__name__", "") != "verif":
            check_schema.__name__ = "verif"
            cls.check_schema = staticmethod(check_schema)


def paths(value, at=()):
    """Paths of everything in the document."""
    out = [at] if at else []
    items = value.items() if isinstance(value, dict) else enumerate(value) if isinstance(value, list) else ()
    for k, v in items:
        out += paths(v, at + (k,))
    return out


def value_at(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def same(a, b):
    """Equal, with the same order of keys; ruamel may change the last digit of a number when it writes it."""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-14 * abs(b) or a != a and b != b
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b


def owners(text):
    """{note: paths of what it belongs to and of what is below it}"""
    start, inside = {}, set()

    def walk(node, path):
        if getattr(node, "flow_style", False):
            inside.update(range(node.start_mark.line, node.end_mark.line))
        if isinstance(node, yaml.MappingNode):
            for k, v in node.value:
                key = path + (yaml.SafeLoader("").construct_object(k),)
                start[k.start_mark.line] = key
                walk(v, key)
        elif isinstance(node, yaml.SequenceNode):
            for i, v in enumerate(node.value):
                if not node.flow_style:
                    start[v.start_mark.line] = path + (i,)
                    walk(v, path + (i,))

    lines = text.split("\n")
    if not NOTE.search(text):
        return {}
    root = yaml.compose(text, Loader=yaml.SafeLoader)
    if getattr(root, "flow_style", False):
        return {}
    walk(root, ())
    out, above = {}, ()
    for i, line in enumerate(lines):
        # a line that begins nothing belongs to the item it continues
        above = start.get(i, above)
        m = NOTE.search(line)
        if m and i not in inside:
            alone = line.lstrip().startswith("#")
            out[m.group()] = above, next((start[k] for k in sorted(start) if k > i), ()) if alone else above
    return out


def jsonable(v):
    try:
        json.dumps(v, allow_nan=False, ensure_ascii=False).encode("utf-8")
        return True
    except (TypeError, ValueError):
        return False


def valid(text, folder):
    """Whether the command line tools would accept a file with this text here."""
    from pvtrace import engine
    from pvtrace.cli.parse import parse

    path = os.path.join(folder, ".verif-probe.yml")
    try:
        doc = load(text)
        if not isinstance(doc, dict) or not jsonable(doc):
            return False
        with open(path, "w", encoding="utf-8") as fp:
            fp.write(text)
        with contextlib.redirect_stdout(io.StringIO()):
            engine.compile_scene(parse(path))
        return True
    except Exception:
        return False
    finally:
        if os.path.exists(path):
            os.unlink(path)


# -------------------------------------------------------------------- geometry
def poses(doc):
    """{node: world matrix, or None where the direction leaves it open}, and the names of the solids in order."""
    local = {}
    for name, n in doc["nodes"].items():
        M = np.eye(4)
        if n.get("location"):
            M[:3, 3] = [float(c) for c in n["location"]]
        R = sf.shortest([float(c) for c in n["direction"]]) if n.get("direction") else np.eye(3)
        if R is None:
            M = None
        else:
            M[:3, :3] = R
        local[name] = M
    out = {}

    def world(name):
        if name not in out:
            up = doc["nodes"][name].get("parent") or "world"
            if name == "world":
                out[name] = np.eye(4)
            else:
                P, M = world(up), local[name]
                out[name] = None if P is None or M is None else P @ M
        return out[name]

    return {name: world(name) for name in local}


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def check_payload(p, doc):
    """The geometry the studio sends is that of the document."""
    require(same(p["spec"], json.loads(json.dumps(doc))), "the spec sent is %s, the document says %s", p["spec"], doc)
    W = poses(doc)
    solids = {k: n for k, n in doc["nodes"].items() if "light" not in n or any(g in n for g in GEOMS)}
    lights = {k: n for k, n in doc["nodes"].items() if k not in solids}
    names = [n["name"] for n in p["nodes"]]
    require(sorted(names) == sorted(solids), "nodes sent are %s, the document has %s", sorted(names), sorted(solids))
    for n in p["nodes"]:
        what = "node %r" % n["name"]
        spec = doc["nodes"][n["name"]]
        kind = [g for g in ("box", "cylinder", "sphere") if g in spec][0]
        require(n["type"] == kind, "%s is sent as a %s, is a %s", what, n["type"], kind)
        b = spec[kind]
        want = {"box": lambda: b["size"], "sphere": lambda: [b["radius"]],
                "cylinder": lambda: [b["length"], b["radius"]]}[kind]()
        require(close(n["params"][:len(want)], [float(v) for v in want]), "%s is sent with parameters %s, has %s", what,
                n["params"], want)
        require(n["root"] == (n["name"] == "world"), "%s is sent with root %s", what, n["root"])
        require(close(n["refractive_index"], float(b["material"]["refractive-index"])), "%s is sent with refractive index %s, has %s",
                what, n["refractive_index"], b["material"]["refractive-index"])
        require(n["spec"] == spec, "%s is sent with spec %s, has %s", what, n["spec"], spec)
        M = W[n["name"]]
        require(M is None or close(np.array(n["matrix"]).reshape(4, 4).T, M), "%s is sent with column-major matrix %s, should be %s", what,
                n["matrix"], M)
    names = [n["name"] for n in p["lights"]]
    require(sorted(names) == sorted(lights), "lights sent are %s, the document has %s", names, sorted(lights))
    for n in p["lights"]:
        M = W[n["name"]]
        require(M is None or close(np.array(n["matrix"]).reshape(4, 4).T, M), "light %r is sent with column-major matrix %s, should be %s",
                n["name"], n["matrix"], M)
        require(n["spec"] == doc["nodes"][n["name"]], "light %r is sent with spec %s, has %s", n["name"], n["spec"], doc["nodes"][n["name"]])
    want = sf.recorders(as_case(doc))
    got = {r["name"]: r for r in p["recorders"]}
    require(len(got) == len(p["recorders"]) and set(got) == set(want), "recorders sent are %s, should be %s",
            [r["name"] for r in p["recorders"]], sorted(want))
    for name, w in want.items():
        check_recorder(got[name], w, W, "recorder %r" % name)


def check_recorder(r, w, W, what):
    require(r["node"] == w["node"] and r["event"] == w["event"] and r["auto"] == w["auto"],
            "%s is sent as %s, should be %s", what, r, w)
    if "local_facet" in w:
        M = W[w["node"]]
        require(M is None or close(r["facet"], M[:3, :3] @ w["local_facet"], 1e-6), "%s is sent with facet %s, the face points along %s", what,
                r["facet"], None if M is None else M[:3, :3] @ w["local_facet"])
    elif w.get("facet") is None:
        require(r["facet"] is None, "%s is sent with facet %s", what, r["facet"])
    else:
        f = np.array(w["facet"], float)
        g = np.array(r["facet"], float)
        require(close(g / (np.linalg.norm(g) or 1.0), f / (np.linalg.norm(f) or 1.0)), "%s is sent with facet %s, should be %s", what, r["facet"], w["facet"])
    want = dict(w.get("histograms") or {})
    require(len(r["histograms"]) == len(want), "%s is sent with histograms %s, should be %s", what, r["histograms"], want)
    for h in r["histograms"]:
        if h["kind"] == "heatmap":
            a, b, ra, rb = want.pop("position", [None] * 4)
            require(a is not None and h["prop_a"] == a and h["prop_b"] == b and same_range(h["range_a"], ra)
                    and same_range(h["range_b"], rb), "%s is sent with heatmap %s, should be %s", what, h, [a, b, ra, rb])
        else:
            require(h["prop"] in want, "%s is sent with histogram %s, should have %s", what, h, want)
            v = want.pop(h["prop"])
            require(v is None or same_range(h["range"], v), "%s is sent with histogram %s, should be %s", what, h, v)


def same_range(got, want):
    return len(got) == 3 and all(b is None or abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))
                                 for a, b in zip(got, want))


def as_case(doc):
    return {"doc": [[k, [[a, b] for a, b in v.items()] if isinstance(v, dict) else v] for k, v in doc.items()],
            "files": {}}


# -------------------------------------------------------------------- requests
class Refused(Exception):
    pass


class Session:
    def __init__(self, c, top, folder):
        from fastapi.testclient import TestClient

        from pvtrace.studio.server import create_app

        fast_schemas()
        self.c, self.top, self.folder = c, top, folder
        sf.write_files(c, folder)
        os.makedirs(os.path.join(folder, "sub.csv"))
        self.path = None
        self.text = ""
        self.home = folder if c["start"] != "none" else os.getcwd()       # where relative file names start from
        if c["start"] != "none":
            self.path = os.path.join(folder, "scene.yml")
            self.text = annotated(sf.text(c, folder), c["notes"])
            if c["ending"] is not None:
                self.text = self.text.rstrip() + c["ending"]
            if c["start"] == "broken":
                self.text = self.text.replace("world", "wold")
            with open(self.path, "w", encoding="utf-8") as fp:
                fp.write(self.text)
        self.applied = valid(self.text, self.home)
        self.files = contents(top)
        self.accepted = self.requests = 0
        self.classes = set()
        with quiet():
            self.client = TestClient(create_app(self.path), raise_server_exceptions=False)
        self.recorders = {}
        self.check_state("on opening")

    @property
    def doc(self):
        return load(self.text)

    def check_state(self, what):
        r = self.client.get("/api/document")
        require(r.status_code == 200 and r.json() == {"text": self.text}, "%s: the document is\n%s\nshould be\n%s", what,
                r.text, self.text)
        now = contents(self.top)
        changed = sorted(k for k in set(now) | set(self.files) if now.get(k) != self.files.get(k))
        require(not changed, "%s: files changed: %s", what, [(k[len(self.top):], now.get(k)) for k in changed])

    def post(self, url, body, put=False):
        self.requests += 1
        with quiet():
            data = json.dumps(body).encode("ascii")
            r = (self.client.put if put else self.client.post)(url, content=data,
                                                               headers={"content-type": "application/json"})
        require(r.status_code in (200, 422), "%s %s answers %d %s", url, body, r.status_code, r.text)
        require(r.status_code == 200 or "error" in r.json(), "%s %s answers %d %s", url, body, r.status_code, r.text)
        return r

    def accept(self, what, r, text, doc):
        require(same(load(text), doc), "%s: the document is now\n%s\nshould be\n%s\nbefore it was\n%s", what, load(text), doc,
                self.doc if self.applied else None)
        self.text, self.applied = text, True
        self.accepted += 1
        self.recorders = {q["name"]: q for q in r.json()["scene"]["recorders"]}
        check_payload(r.json()["scene"], self.doc)

    # .......................................................... whole documents
    def put(self, how, pick, f):
        text = self.text
        doc = load(text) if self.applied else sf.plain(self.c)
        if how in ("edit", "style"):
            if how == "edit":
                numbers = [q for q in paths(doc) if isinstance(value_at(doc, q), (int, float))
                           and not isinstance(value_at(doc, q), bool)]
                q = numbers[pick % len(numbers)]
                value_at(doc, q[:-1])[q[-1]] = scaled(value_at(doc, q), f)
            text = yaml.safe_dump(doc, sort_keys=False, default_flow_style=[None, False, False, True][pick % 4])
            if how == "style":          # lists in lines of their own, with comments
                text = annotated(text, [[pick * 7 + 31 * k, k % 3 == 0] for k in range(3 + pick % 17)])
        elif how == "ending":
            text = text.rstrip() + ["", "\n\n\n", "  ", "\n# the end\n\n", " \n", "\n\n", "\n   \n\n", "\n# end"][pick % 8]
        elif how == "nan":
            doc["nodes"]["world"][[g for g in GEOMS if g in doc["nodes"]["world"]][0]]["material"]["refractive-index"] = \
                [math.nan, math.inf][pick % 2]
            text = yaml.safe_dump(doc, sort_keys=False)
        elif how == "cut":
            q = paths(doc)[pick % len(paths(doc))]
            del value_at(doc, q[:-1])[q[-1]]
            text = yaml.safe_dump(doc, sort_keys=False)
        elif how == "text":
            text = ["", "null", "- 1\n", "{", "a: [", "version: '1.0'\n", "\tx: 1", "version: 2001-01-01\nnodes: {}\n",
                    text + "\nextra: 1\n", text.replace("1.0", "2.0", 1), text.replace(":", "", 1), text + "  # tail",
                    text + "\n...\n", "x: !!python/object/apply:os.getcwd []\n" + text, "\ud800", "\0",
                    text + "\nx: \"\\ud800\"\n", text.replace("\n", "\r\n")][pick % 18]
        ok = valid(text, self.home)
        r = self.post("/api/document", {"text": text}, put=True)
        what = "a document\n%r\n" % (text,)
        require((r.status_code == 200) == ok, "%s that is %s: %d %s", what, "valid" if ok else "not valid", r.status_code,
                r.text[:500])
        if ok:
            self.accept(what, r, text, load(text))
        self.check_state("after " + what)
        self.classes.add("put %s" % ("accepted" if ok else "refused"))

    # ......................................................... structured edits
    def patch(self, body, edit):
        """edit(new): the document after the edit (given what the studio made of it, or None) and the paths whose
        comments may go; raises when the edit cannot be done."""
        what = "edit %s" % json.dumps(body)
        before = self.text
        r = self.post("/api/patch", body)
        new = load(r.json()["text"]) if r.status_code == 200 else None
        try:
            if not isinstance(load(before), dict):
                raise Refused
            doc, gone = edit(copy.deepcopy(load(before)), new)
            ok = valid(yaml.safe_dump(doc, sort_keys=False), self.home)
        except (Refused, LookupError, TypeError, AttributeError, ValueError):
            ok = False
        require((r.status_code == 200) == ok, "%s, which %s: %d %s\nof\n%s", what, "should do" if ok else "should be refused",
                r.status_code, r.text[:500], before)
        if ok:
            text = r.json()["text"]
            kept = owners(before)
            self.accept(what, r, text, doc)
            for note, (at, below) in kept.items():
                if any(at[:len(g)] == g or below[:len(g)] == g and body["op"].startswith("delete") for g in gone):
                    continue
                require(note in text, "%s: the comment %r of %s is gone from\n%s\nbefore:\n%s", what, note, at, text, before)
                self.classes.add("comment kept")
        self.check_state("after " + what)
        self.classes.add("%s %s" % (body["op"], "accepted" if ok else "refused"))

    def set(self, path, value):
        def edit(doc, new):
            t = doc
            for k in path[:-1]:
                if isinstance(t, dict) and k not in t:
                    t[k] = {}
                t = t[k]
                if not isinstance(t, (dict, list)):
                    raise Refused
            if isinstance(t, list) and not isinstance(path[-1], int):
                raise Refused
            t[path[-1]] = value
            return doc, [tuple(path)]

        self.patch({"op": "set", "path": list(path), "value": value}, edit)

    def run(self, op):
        kind, doc = op[0], self.doc
        shown = isinstance(doc, dict)
        names = list((doc.get("nodes") if shown else None) or {}) or ["world"]
        if kind == "set":
            everything = (paths(doc) if shown else []) or [("version",)]
            leaves = [q for q in everything if not isinstance(value_at(doc, q), (dict, list))] if shown else everything
            q = (everything if op[2] % 3 == 0 else leaves)[op[1] % len(everything if op[2] % 3 == 0 else leaves)]
            v = value_at(doc, q) if shown else None
            # a tiny spacing asks for a spectrum that does not fit into memory
            how = "scale" if q[-1] == "spacing" and op[3] == "tiny" else op[3]
            self.set(q, replacement(v, how, op[4], names, op[2]))
        elif kind == "addkey":
            n = names[op[1] % len(names)]
            k = op[2] % 16
            spec = (doc["nodes"][n] if shown and isinstance(doc.get("nodes"), dict) and n in doc["nodes"] else None) or {}
            body = [g for g in GEOMS + ("light",) if g in spec][:1] or ["box"]
            rec = list((doc.get("recorders") if shown else None) or {"r": 0})
            r = rec[op[1] % len(rec)]
            com = list((doc.get("components") if shown else None) or {"c": 0})
            f = op[3]
            path, value = [
                (["nodes", n, "location"], [f, -f, 1e-5 * f]), (["nodes", n, "direction"], [f, 1.0, -f]),
                (["nodes", n, "direction"], [0, 0, -1]), (["nodes", n, "record"], True), (["nodes", n, "record"], False),
                (["nodes", n, "parent"], names[(op[1] // 7) % len(names)]), (["nodes", n, "location"], None),
                (["nodes", n, body[0], "material", "components"], com[:1 + op[1] % 2]),
                (["nodes", n, "light", "wavelength"], 500.0 + f), (["nodes", n, "light", "mask", "position", "circle"], f),
                (["recorders", r, "histograms", "angle"], [0, f, 5]), (["recorders", r, "facet"], [0, f, -f]),
                (["recorders", r, "atol"], 1e-6 * f), (["nodes", n, "bogus", "deeper"], f),
                (["recorders", "new-one"], {"node": n, "event": "lost"}), (["components", "no", "absorber", "coefficient"], f),
            ][k]
            self.set(path, value)
        elif kind == "move":
            self.move(names[op[1] % len(names)] if op[1] % 10 else "nobody", op[2])
        elif kind == "churn":
            section = {"recorder": "recorders", "component": "components"}.get(op[1], "nodes")
            entries = lambda: list(((self.doc if shown else None) or {}).get(section) or {})
            had = entries()
            for step in op[2]:
                added = [k for k in entries() if k not in had]
                if step < 1 or not added:
                    self.run({"recorders": ["add-recorder", op[3]], "components": ["add-component"],
                              "nodes": ["add-node", op[1]]}[section])
                else:
                    {"recorders": self.delete_recorder, "components": self.delete_component,
                     "nodes": self.delete_node}[section](added[step % len(added)])
        elif kind == "add-node":
            self.add("add-node", {"kind": op[1]}, "nodes",
                     lambda body: op[1] in GEOMS + ("light",) and op[1] in body)
        elif kind == "add-recorder":
            n = names[op[1] % len(names)] if op[1] % 10 else "nobody"
            self.add("add-recorder", {"node": n}, "recorders",
                     lambda body: n in names and body["node"] == n, n in names)
        elif kind == "add-component":
            self.add("add-component", {}, "components", lambda body: len(body) == 1)
        elif kind == "add-face-recorders":
            boxes = [k for k in names if shown and isinstance((doc.get("nodes") or {}).get(k), dict) and "box" in doc["nodes"][k]]
            self.faces((boxes or names)[op[1] % len(boxes or names)] if op[1] % 5 else names[op[1] % len(names)])
        elif kind == "delete-component":
            com = list((doc.get("components") if shown else None) or {}) + ["nothing"]
            self.delete_component(com[op[1] % len(com)])
        elif kind == "delete-node":
            self.delete_node(names[op[1] % len(names)] if op[1] % 10 else "nobody")
        elif kind in ("delete-recorder", "update-recorder"):
            every = sorted(sf.recorders(as_case(doc))) if self.applied else []
            every.append("nothing")
            name = every[op[1] % len(every)]
            if kind == "delete-recorder":
                self.delete_recorder(name)
            else:
                self.update_recorder(name, op[2])
        elif kind == "put":
            self.put(*op[1:])
        elif kind == "upload":
            self.upload(*op[1:])
        elif kind == "save":
            r = self.post("/api/save", {})
            require((r.status_code == 200) == (self.path is not None), "saving answers %d %s", r.status_code, r.text)
            if self.path:
                self.files[self.path] = self.text.encode("utf-8")
            self.check_state("after saving")
            self.classes.add("save")
        elif kind == "get":
            self.check_state("later")
        else:
            self.patch({"op": "no-such-thing", "node": "world"}, lambda d, new: (_ for _ in ()).throw(Refused()))

    def add(self, op, body, section, good, possible=True):
        """One new entry, whose name and details the studio chooses."""
        def edit(doc, new):
            if not possible or (op == "add-node" and not good({body["kind"]: 0})):
                raise Refused
            if new is None:
                # any entry will do to tell whether the rest of the document allows it
                if section == "nodes":
                    doc["nodes"]["verif"] = {"sphere": {"radius": 0.5, "material": {"refractive-index": 1.5}}}
                elif section == "recorders":
                    doc.setdefault("recorders", {})["verif"] = {"node": body["node"], "event": "escaping"}
                else:
                    doc.setdefault("components", {})["verif"] = {"absorber": {"coefficient": 1.0}}
                return doc, []
            extra = [k for k in new[section] if k not in (doc.get(section) or {})]
            require(len(extra) == 1, "%s %s: new entries are %s", op, body, extra)
            require(good(new[section][extra[0]]), "%s %s: the new entry is %s", op, body, new[section][extra[0]])
            doc.setdefault(section, {})[extra[0]] = new[section][extra[0]]
            return doc, []

        self.patch(dict(body, op=op), edit)

    def move(self, name, at):
        def edit(doc, new):
            n = doc["nodes"][name]
            if name == "world":
                raise Refused
            P = poses(doc)[n.get("parent") or "world"]
            if new is not None:
                got = new["nodes"][name]["location"]
                if P is not None:
                    want = np.linalg.inv(P) @ np.array(list(at) + [1.0])
                    require(len(got) == 3 and np.all(np.abs(np.array(got, float) - want[:3]) <= 1e-6 + 1e-9 * np.abs(want[:3]).max()),
                            "moving %r to %s in the world gives location %s, should be %s", name, at, got, want[:3])
                    self.classes.add("move to where asked")
                n["location"] = got
            else:
                n["location"] = [0.0, 0.0, 0.0]
            return doc, [("nodes", name, "location")]

        def unless_unapplied(doc, new):
            if not self.applied:
                raise Refused
            return edit(doc, new)

        self.patch({"op": "move", "node": name, "world_position": at}, unless_unapplied)

    def faces(self, name):
        def edit(doc, new):
            spec = doc["nodes"][name]
            if "box" not in spec or not self.applied:
                raise Refused
            size = [float(v) for v in spec["box"]["size"]]
            M = poses(doc)[name]
            old = doc.setdefault("recorders", {})
            if new is None:
                return doc, []
            for label, axis, sign in (("top", 2, 1), ("bottom", 2, -1), ("east", 0, 1), ("west", 0, -1),
                                      ("north", 1, 1), ("south", 1, -1)):
                key = "%s-%s" % (name, label)
                if key in old:
                    continue
                require(key in new["recorders"], "add-face-recorders of %r: none for the %s face: %s", name, label,
                        list(new["recorders"]))
                r = new["recorders"][key]
                require(r["node"] == name and r["event"] == "escaping", "add-face-recorders of %r: %s", name, r)
                if M is not None:
                    d = np.zeros(3)
                    d[axis] = sign
                    require(close(r["facet"], M[:3, :3] @ d, 1e-6), "add-face-recorders of %r: %s face has facet %s, points along %s",
                            name, label, r["facet"], M[:3, :3] @ d)
                    if abs(abs(M[:3, :3] @ d).max() - 1) > 1e-3:
                        self.classes.add("faces of a turned box")
                u, v = [i for i in range(3) if i != axis]
                p = r["histograms"]["position"]
                require(p[0] == "xyz"[u] and p[1] == "xyz"[v] and same_range(p[2], [-size[u] / 2, size[u] / 2, None])
                        and same_range(p[3], [-size[v] / 2, size[v] / 2, None]), "add-face-recorders of %r: heatmap %s for the %s face of a box of size %s",
                        name, p, label, size)
                old[key] = r
            return doc, []

        self.patch({"op": "add-face-recorders", "node": name}, edit)

    def delete_component(self, name):
        def edit(doc, new):
            del doc["components"][name]
            gone = [("components", name)]
            for k, n in doc["nodes"].items():
                for g in GEOMS:
                    m = (n.get(g) or {}).get("material") or {}
                    if name in (m.get("components") or []):
                        m["components"] = [x for x in m["components"] if x != name]
                        gone.append(("nodes", k, g, "material", "components"))
                        self.classes.add("component in use deleted")
            return doc, gone

        self.patch({"op": "delete-component", "component": name}, edit)

    def delete_node(self, name):
        def edit(doc, new):
            del doc["nodes"][name]
            gone = [("nodes", name)]
            for k, r in list((doc.get("recorders") or {}).items()):
                if r["node"] == name:
                    del doc["recorders"][k]
                    gone.append(("recorders", k))
            return doc, gone

        self.patch({"op": "delete-node", "node": name}, edit)

    def delete_recorder(self, name):
        def edit(doc, new):
            del doc["recorders"][name]
            return doc, [("recorders", name)]

        self.patch({"op": "delete-recorder", "recorder": name}, edit)

    def update_recorder(self, name, changes):
        def edit(doc, new):
            section = doc.setdefault("recorders", {})
            auto = name not in section
            if auto and name not in sf.recorders(as_case(doc)) or any(k not in ("event", "facet", "atol") for k in changes):
                raise Refused
            if auto:
                made = spelled_out(name, self.recorders.get(name)) if new is None else new["recorders"].get(name)
                if new is not None:
                    shown = self.recorders.get(name)
                    if shown is not None:
                        want = dict(spelled_out(name, shown), **changes)
                        require(set(made) == set(want) and all(loosely(made[k], want[k]) for k in want),
                                "update-recorder of automatic %r with %s gives %s, should be %s", name, changes, made, want)
                    self.classes.add("automatic recorder edited")
                section[name] = made
            section[name].update({k: v for k, v in changes.items()})
            return doc, [("recorders", name, k) for k in changes]

        self.patch({"op": "update-recorder", "recorder": name, "changes": changes}, edit)

    def upload(self, name, content):
        if name.startswith("@/"):
            name = os.path.join(self.top, name[2:])
        r = self.post("/api/upload", {"name": name, "content": content})
        base = name.rpartition("/")[2]
        ok = self.path is not None and base.lower().endswith((".csv", ".txt"))
        target = os.path.join(self.folder, base)
        try:
            data = content.encode("utf-8")
            os.fsencode(base)
        except UnicodeEncodeError:
            ok = False
        ok = ok and "\0" not in base and len(base.encode("utf-8", "surrogatepass")) <= 255 and base != "sub.csv"
        require((r.status_code == 200) == ok, "uploading %r as %r answers %d %s", content, name, r.status_code, r.text)
        if ok:
            self.files[target] = data
            self.classes.add("upload elsewhere" if base != name else "upload")
        else:
            self.classes.add("upload refused")
        self.check_state("after uploading %r as %r" % (content, name))


def spelled_out(name, shown):
    if shown is None:
        raise Refused
    hs = {}
    for h in shown["histograms"]:
        if h["kind"] == "heatmap":
            hs["position"] = [h["prop_a"], h["prop_b"], h["range_a"], h["range_b"]]
        else:
            hs[h["prop"]] = h["range"]
    out = {"node": shown["node"], "event": shown["event"], "histograms": hs}
    if shown["facet"] is not None:
        out["facet"] = shown["facet"]
    return out


def loosely(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(loosely(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(loosely(x, y) for x, y in zip(a, b))
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        return isinstance(a, (int, float)) and abs(a - b) <= 1e-9 * (1 + abs(b))
    return a == b


def scaled(v, f):
    w = v * f
    if isinstance(v, int):
        return int(round(w)) or 1
    return float("%.6g" % w)


def replacement(v, how, f, names, k):
    if how == "scale":
        if isinstance(v, bool):
            return not v
        if isinstance(v, (int, float)):
            return scaled(v, f)
        if isinstance(v, list) and v and all(isinstance(x, (int, float)) for x in v):
            return [scaled(x, f) for x in v]
        if isinstance(v, list):
            return v[:-1]
        if isinstance(v, str):
            return names[k % len(names)]
        return v if v is not None else f
    return {"tiny": 1e-5 * f, "int": 1 + k % 50, "word": ["no", "1e3x", "1:30", "0x1F", " ", "lost", "null", "#x", "a: b"][k % 9],
            "zero": 0, "negative": -f, "null": None, "list": [f, 1e-7, -2.0], "bool": True, "sub": {"a": f}}[how]


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def edit_prop(c):
    with scratch() as (top, folder):
        s = Session(c, top, folder)
        for op in c["ops"]:
            s.run(op)
        rich = isinstance(s.doc, dict) and len(s.doc.get("nodes") or {}) > 2
        return Info(s.accepted > 0 and rich, sorted(s.classes), s.requests)


PARTS = [Part("edit", case, edit_prop, quick=700, thorough=16000, shards=8,
              rule="at least one accepted edit of a document with a solid besides the world")]
