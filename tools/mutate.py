"""Mechanical mutants: which small changes do neither the tests nor the checks notice?

usage: mutate.py OUT.jsonl --n 100 [--seed 1] [--jobs 4] [--files SUBSTR...] [--max-tests SECONDS]

Every mutant is made in a copy of /repo under /tmp. It is dropped when the repository's
tests notice it; else the quick checks of the properties its file serves are run until one
reports a violation. What is left (status "survived") is read by a person: an equivalent
mutant, something no property speaks of, or a hole in a check.
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, threading, queue, time

REPO, VERIF, PY = "/repo", "/verif", "/opt/venv/bin/python"
CHECKS = [
    ("algorithm/photon_tracer.py", "C01 C02 C04 C03 C06"), ("material/component.py", "C13 C05 C04 C20"),
    ("material/distribution.py", "C13"), ("material/material.py", "C04 C13 C02"), ("material/surface.py", "C03 C02"),
    ("material/utils.py", "C20 C03 C05"), ("light/light.py", "C12 C13"), ("light/ray.py", "C01 C11"), ("light/utils.py", "C20 C12 C21"),
    ("scene/node.py", "C11 C12 C09"), ("scene/scene.py", "C12 C11 C14 C02 C21"), ("geometry/box.py", "C10"), ("geometry/cylinder.py", "C10"),
    ("geometry/sphere.py", "C10"), ("geometry/mesh.py", "C10 C16"), ("geometry/utils.py", "C10 C11 C02"),
    ("geometry/transformable.py", "C11"), ("geometry/intersection.py", "C11 C10"), ("geometry/geometry.py", "C10"),
    ("engine/compiler.py", "C09 C08 C04 C05 C03"), ("engine/api.py", "C07 C08 C09"), ("engine/emit.py", "C12 C07"),
    ("engine/recorder.py", "C08 C09 C16"), ("engine/tally.py", "C08"), ("engine/_kernel.pyx", "C01 C02 C03 C04 C05 C07 C08"),
    ("cli/db.py", "C15"), ("cli/count.py", "C15"), ("cli/spectrum.py", "C15"), ("cli/time.py", "C15"), ("cli/main.py", "C15 C16 C21"),
    ("cli/parse.py", "C16"), ("studio/server.py", "C17 C18"), ("device/lsc.py", "C19 C21"), ("scene/renderer.py", "C21"),
]
CMP = {"Lt": ["<=", ">"], "LtE": ["<", ">"], "Gt": [">=", "<"], "GtE": [">", "<"], "Eq": ["!="], "NotEq": ["=="],
       "Is": ["is not"], "IsNot": ["is"], "In": ["not in"], "NotIn": ["in"]}
BIN = {"Add": ["-"], "Sub": ["+"], "Mult": ["/"], "Div": ["*"], "Pow": ["*"], "Mod": ["*"], "FloorDiv": ["*"]}


def python_mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    span = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[span(n)[0]:span(n)[1]].decode()
    out = []

    def put(node, new, what):
        a, b = span(node)
        out.append((raw[:a] + new.encode() + raw[b:], node.lineno, "%s: %s -> %s" % (what, text(node)[:90], new[:90])))

    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            child.parent = node
    for node in ast.walk(tree):
        up = node
        skip = False
        while hasattr(up, "parent"):
            if isinstance(up, (ast.Raise, ast.JoinedStr)) or (isinstance(up, ast.Expr) and (
                    isinstance(up.value, ast.Constant) or "logg" in text(up)[:12] or text(up).startswith("print"))):
                skip = True
            if isinstance(up, ast.arguments) or isinstance(up, ast.AnnAssign):
                skip = skip or isinstance(up, ast.AnnAssign)
            up = up.parent
        if skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for op in CMP[type(node.ops[0]).__name__]:
                put(node, "(%s %s %s)" % (text(node.left), op, text(node.comparators[0])), "compare")
        elif isinstance(node, ast.BinOp) and type(node.op).__name__ in BIN:
            for op in BIN[type(node.op).__name__]:
                put(node, "((%s) %s (%s))" % (text(node.left), op, text(node.right)), "arith")
        elif isinstance(node, ast.BoolOp):
            op = " or " if isinstance(node.op, ast.And) else " and "
            put(node, "(" + op.join("(%s)" % text(v) for v in node.values) + ")", "bool")
            for k in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != k]
                put(node, "(" + (" and " if isinstance(node.op, ast.And) else " or ").join("(%s)" % text(v) for v in rest) + ")", "drop")
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            put(node.test, "(not (%s))" % text(node.test), "negate")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            put(node, "(%s)" % text(node.operand), "unary")
        elif isinstance(node, ast.Constant) and not isinstance(node.value, (str, bytes, type(None), type(Ellipsis))):
            v = node.value
            if isinstance(v, bool):
                put(node, repr(not v), "const")
            elif isinstance(v, int):
                put(node, repr(v + 1), "const")
                if v > 0:
                    put(node, repr(v - 1), "const")
            elif isinstance(v, float):
                put(node, repr(v * 1.1 if v else 1.0), "const")
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
                a, b = text(node.args[0]), text(node.args[1])
                s0, s1 = span(node.args[0]), span(node.args[1])
                new = raw[:s0[0]] + b.encode() + raw[s0[1]:s1[0]] + a.encode() + raw[s1[1]:]
                out.append((new, node.lineno, "swap args: %s" % text(node)[:120]))
            for kw in node.keywords:
                if kw.arg and kw.arg not in ("help", "exists", "file_okay", "dir_okay", "writable", "readable", "resolve_path"):
                    a, b = span(kw)
                    end = b
                    while raw[end:end + 1] in (b" ", b"\n", b","):
                        end += 1
                        if raw[end - 1:end] == b",":
                            break
                    out.append((raw[:a] + raw[end:], node.lineno, "drop kw %s: %s" % (kw.arg, text(node)[:100])))
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) and hasattr(node, "parent"):
            if isinstance(node.parent, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try, ast.ExceptHandler)):
                put(node, "pass", "delete")
    good = []
    for new, line, what in out:
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        if new != raw:
            good.append((new.decode(), line, what))
    return good


PYX = [(r" < ", " <= "), (r" < ", " > "), (r" > ", " >= "), (r" > ", " < "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "),
       (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" and ", " or "), (r" or ", " and "),
       (r"\b1\.0\b", "1.1"), (r"\b2\.0\b", "2.1"), (r"\b0\.5\b", "0.6"), (r"\+ 1\b", "+ 2"), (r"\[0\]", "[1]"), (r"\[1\]", "[2]"),
       (r"\bn1\b", "n2"), (r"\bcos\(", "sin("), (r"\bt0\b", "t1"), (r"\bcontainer\b", "hit"), (r"\badjacent\b", "container"),
       (r"\bhit\b", "container"), (r"\bnrm\b", "nrm_flipped"), (r" - ", " - 0 * ")]


def pyx_mutants(path):
    lines = open(path).read().splitlines(keepends=True)
    out = []
    doc = False
    for i, l in enumerate(lines):
        if l.count('"""') == 1:
            doc = not doc
        if doc or '"""' in l or l.strip().startswith(("#", "cdef cnp", "cimport", "import", "from")):
            continue
        if re.match(r"cdef .*(noexcept|\(self)", l):
            continue
        code = l.split("#")[0]
        for pat, new in PYX:
            for m in re.finditer(pat, code):
                mutated = code[:m.start()] + new + code[m.end():]
                if mutated.startswith("cdef") or not l.startswith(" "):
                    continue
                out.append(("".join(lines[:i] + [mutated.rstrip("\n") + "\n"] + lines[i + 1:]), i + 1,
                            "%s -> %s" % (code.strip()[:90], mutated.strip()[:90])))
        s = code.strip()
        if re.match(r"[a-zA-Z_.\[\] 0-9*+]+ (=|\+=|-=) ", s) and s.count("(") == s.count(")") and not s.startswith("cdef"):
            out.append(("".join(lines[:i] + [re.match(r" *", l).group() + "pass\n"] + lines[i + 1:]), i + 1, "delete: " + s[:90]))
    return out


def worker(jobs, out, lock, k, opt):
    root = "/tmp/mut/w%d" % k
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.check_call(["cp", "-a", REPO, root])
    env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", BROWSER="true", VERIF_REPO=root,
               VERIF_SEED="1", VERIF_TIER="quick", OMP_NUM_THREADS="2")

    def sh(cmd, cwd, timeout):
        p = subprocess.Popen(cmd, shell=True, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                             start_new_session=True)
        try:
            text, _ = p.communicate(timeout=timeout)
            return p.returncode, text
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            return 124, "timeout"

    while True:
        try:
            rel, new, line, what = jobs.get_nowait()
        except queue.Empty:
            break
        path = os.path.join(root, "pvtrace", rel)
        original = open(path).read()
        row = {"file": rel, "line": line, "what": what}
        t = time.time()
        try:
            with open(path, "w") as fp:
                fp.write(new)
            if rel.endswith(".pyx"):
                rc, text = sh("rm -f pvtrace/engine/*.so && %s -m pvtrace.engine.build" % PY, root, 200)
                if rc:
                    row["status"] = "build"
            if "status" not in row:
                rc, text = sh("%s -m pytest tests -x -q -p no:cacheprovider --timeout=120" % PY, root, opt.max_tests)
                if rc:      # tests of several copies at once disturb each other at times
                    rc, text = sh("%s -m pytest tests -x -q -p no:cacheprovider --timeout=120" % PY, root, opt.max_tests)
                if rc:
                    row["status"] = "tests"
                    row["text"] = [l for l in text.splitlines() if l.startswith(("FAILED", "ERROR", "timeout", "Fatal", "E "))][:3] or text[-300:]
            if "status" not in row:
                row["status"] = "survived"
                for c in dict(CHECKS)[rel].split():
                    rc, text = sh("./check.py %s --tier quick --jobs %d --scale %s" % (c, opt.check_jobs, opt.scale), VERIF, 900)
                    row.setdefault("runs", []).append("%s:%d" % (c, rc))
                    if rc:
                        row["status"] = "%s:%d" % (c, rc)
                        row["text"] = [l for l in text.splitlines() if "part " in l or "VIOLATION" in l or "rror" in l][:2]
                        break
        finally:
            with open(path, "w") as fp:
                fp.write(original)
            if rel.endswith(".pyx"):  # the kernel of the mutant must not stay behind
                sh("rm -f pvtrace/engine/*.so pvtrace/engine/*.c && cp -p %s/pvtrace/engine/*.so pvtrace/engine/" % REPO, root, 60)
        row["seconds"] = round(time.time() - t)
        with lock:
            with open(opt.out, "a") as fp:
                fp.write(json.dumps(row) + "\n")
    shutil.rmtree(root, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--check-jobs", type=int, default=3)
    ap.add_argument("--scale", default="0.5")
    ap.add_argument("--max-tests", type=float, default=150)
    ap.add_argument("--files", nargs="*")
    opt = ap.parse_args()
    rng = random.Random(opt.seed)
    pool = []
    for rel, _ in CHECKS:
        if opt.files and not any(f in rel for f in opt.files):
            continue
        path = os.path.join(REPO, "pvtrace", rel)
        found = (pyx_mutants if rel.endswith(".pyx") else python_mutants)(path)
        rng.shuffle(found)
        # files take turns, larger ones more often
        pool += [((k + 0.5) / max(1, len(found)) ** 0.5, (rel,) + m) for k, m in enumerate(found)]
    print(len(pool), "mutants")
    pool = [m for _, m in sorted(pool, key=lambda t: t[0])]
    try:
        done = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(opt.out))}
    except FileNotFoundError:
        done = set()
    pool = [m for m in pool if (m[0], m[2], m[3]) not in done]
    jobs = queue.Queue()
    for m in pool[:opt.n]:
        jobs.put(m)
    lock = threading.Lock()
    threads = [threading.Thread(target=worker, args=(jobs, None, lock, k, opt)) for k in range(opt.jobs)]
    [t.start() for t in threads]
    [t.join() for t in threads]


main()
