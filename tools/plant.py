"""Confirm a planted bug and keep it under seeded/.

usage: plant.py SPEC.py   where SPEC.py defines ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO = python source (fails with the change).

The change is made in /repo's working tree, built, tested and undone.
"""
import json, os, subprocess, sys

REPO, VERIF = "/repo", "/verif"
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def demo(folder):
    return sh("bash %s/demo.sh" % folder, cwd=REPO, timeout=300)


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "dirty /repo"
    folder = os.path.join(VERIF, "seeded", ns["ID"])
    os.makedirs(folder, exist_ok=True)
    with open(folder + "/demo.py", "w") as fp:
        fp.write(ns["DEMO"].lstrip("\n"))
    with open(folder + "/demo.sh", "w") as fp:
        fp.write('#!/bin/bash\n# exit 0 when the property holds, 1 when it is broken\n'
                 'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg BROWSER=true\n'
                 'exec %s "$(dirname "$0")/demo.py"\n' % PY)
    with open(folder + "/meta.json", "w") as fp:
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, fp, indent=1)
    clean = demo(folder)
    ok = clean.returncode == 0
    print("clean demo:", clean.returncode, clean.stdout[-500:])
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            base = sh("git -C /repo show 543cf30:%s" % f).stdout
            for line in old.splitlines():
                if line.strip() and line not in base:
                    print("NOT ORIGINAL:", line)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(folder + "/patch.diff", "w").write(diff)
        b = sh("bash /opt/vp/build.sh")
        print("build:", b.returncode, b.stdout[-300:] if b.returncode else "")
        ok &= b.returncode == 0
        t = sh("bash /opt/vp/test.sh /tmp/plant.json")
        r = json.load(open("/tmp/plant.json"))
        failed = r.get("failed", [])
        print("tests: passed", len(r.get("passed", [])), "failed", failed)
        ok &= len(r.get("passed", [])) >= 113
        d = demo(folder)
        print("patched demo:", d.returncode, d.stdout[-600:])
        ok &= d.returncode != 0
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    print("CONFIRMED" if ok else "NOT CONFIRMED", ns["ID"])
    if not ok:
        os.rename(folder, "/tmp/bugs/rejected-" + ns["ID"]) if not os.path.exists("/tmp/bugs/rejected-" + ns["ID"]) else sh("rm -r " + folder)


for p in sys.argv[1:]:
    main(p)
