"""Run the quick check of each planted bug's property against it: catch.py [ID...]"""
import json, os, subprocess, sys, time
VERIF = "/verif"
ids = sys.argv[1:] or sorted(os.listdir(VERIF + "/seeded"))
for i in ids:
    d = os.path.join(VERIF, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    t = time.time()
    try:
        r = subprocess.run([os.path.join(VERIF, "check.py"), prop], cwd=VERIF, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    lines = [x for x in r.stdout.splitlines() if "VIOLATION" in x]
    print(i, prop, "exit", r.returncode, "%.0f s" % (time.time() - t), (lines or r.stdout.splitlines()[-1:])[0][:300], flush=True)
