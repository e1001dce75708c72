#!/usr/bin/env python3
"""plant_batch.py FILE... [-j N] [-n]
each FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
Works in scratch copies of /repo: applies the edits, runs the tests and the demonstration with and without them, stores
what is confirmed in seeded/ID and runs the quick check of the property against it (unless -n)."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

args = sys.argv[1:]
N = 3
if "-j" in args:
    i = args.index("-j")
    N = int(args[i + 1])
    del args[i:i + 2]
CHECK = "-n" not in args
args = [a for a in args if a != "-n"]
BASE = [t if isinstance(t, str) else t.get("id") for t in json.load(open("/opt/vp/BASELINE.json")).get("tests", [])] \
    if os.path.exists("/opt/vp/BASELINE.json") else []
PY = "/opt/venv/bin/python"


def sh(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def plant(b):
    w = tempfile.mkdtemp(prefix="plant_")
    try:
        repo = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", os.environ.get("PLANT_SRC", "/repo"), repo], check=True)
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        for path, old, new in b["edits"]:
            p = repo + "/src/oidcop/" + path
            s = open(p).read()
            if s.count(old) != 1:
                return "%s EDIT matches %d times in %s: %r" % (b["id"], s.count(old), path, old[:80])
            open(p, "w").write(s.replace(old, new))
        d = "/verif/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(open("/verif/tools/demo_head.py").read() + b["demo"])
        for f in ("opsys.py", "vclock.py"):
            shutil.copy("/verif/harness/" + f, d)
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$d/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        w1, o1 = sh(["bash", d + "/demo.sh"], {"VERIF_REPO": repo}, cwd=repo)
        w0, o0 = sh(["bash", d + "/demo.sh"], {"VERIF_REPO": os.environ.get("PLANT_SRC", "/repo")}, cwd=os.environ.get("PLANT_SRC", "/repo"))
        rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x", "tests"],
                     {"PYTHONPATH": repo + "/src", "PYTHONHASHSEED": "0", "HOME": "/root", "TZ": "UTC"}, cwd=repo)
        tail = out.strip().split("\n")[-1]
        failed = re.findall(r"^FAILED (\S+)", out, re.M)
        msg = "%s demo with=%d without=%d tests: %s %s" % (b["id"], w1, w0, tail[:80], failed[:3])
        if w1 == 0 or w0 != 0 or rc != 0:
            return "NOT CONFIRMED " + msg + "\n   with: %s\n   without: %s" % (o1.strip()[-300:], o0.strip()[-300:])
        if CHECK:
            env = {"VERIF_REPO": repo, "VERIF_EVIDENCE": w}
            rc, out = sh([PY, "/verif/harness/check.py", b["prop"], "quick"], env, cwd="/verif")
            v = re.search(r"violated: (.*)", out)
            msg += "\n   CHECK rc=%d %s" % (rc, v.group(1)[:160] if v else out[-300:])
        return msg
    finally:
        shutil.rmtree(w, ignore_errors=True)


bugs = []
for f in args:
    ns = {}
    exec(open(f).read(), ns)
    bugs += ns["BUGS"]
with ThreadPoolExecutor(N) as ex:
    for r in ex.map(plant, bugs):
        print(r, flush=True)
