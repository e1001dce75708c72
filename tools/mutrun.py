#!/opt/venv/bin/python
"""mutrun.py prepare WALKS.pkl            - behaviours of all specifications (a small selection)
   mutrun.py one WALKS.pkl               - replay them on VERIF_REPO: prints one JSON line
   mutrun.py all WALKS.pkl TESTED.jsonl OUT.jsonl -j J   - on every mutation that passed the tests"""
import json, os, pickle, queue, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/harness")
sys.path.insert(0, ROOT + "/tools")
BUDGET = {"core": 300, "cookie": 700, "clientauth": 900, "authz": 900, "pkce": 600, "par": 500, "reqobj": 900, "sso": 900, "claims": 500,
          "idtoken": 500, "subject": 500, "registration": 500, "dpop": 400}


def prepare(out):
    import vclock, importlib, engine
    res = []

    def job(mod, n):
        m = importlib.import_module("jobs_" + mod)
        r = m.explore(n, "quick", 2)
        assert r["ok"], r["out"][-2000:]
        return mod, n, r
    todo = [(mod, n) for mod in BUDGET for n in importlib.import_module("jobs_" + mod).JOBS]
    with ThreadPoolExecutor(4) as ex:
        for mod, n, r in ex.map(lambda x: job(*x), todo):
            m = importlib.import_module("jobs_" + mod)
            g = engine.Graph(r["lines"])
            ws = g.walks(random.Random(1), budget=BUDGET[mod], classify=getattr(m, "classify", None), max_len=getattr(m, "MAX_LEN", 60),
                         loops=getattr(m, "LOOPS", 3))[0]
            res.append((mod, n, [g.concrete(w) for w in ws]))
            print(mod, n, len(ws), flush=True)
    pickle.dump(res, open(out, "wb"))


def one(path):
    import vclock, importlib, engine
    known = {"pairwise: user and sector run into each other"}
    t0 = vclock.real_time()
    found = {}
    for mod, n, ws in pickle.load(open(path, "rb")):
        m = importlib.import_module("jobs_" + mod)
        r = engine._worker((m.FACTORY, list(enumerate(ws)), 1, 1e18, 1, None))
        if r["error"]:
            found[mod + "/" + n] = "ERROR " + r["error"][-300:]
        for d in r["divs"]:
            for x in d["divs"]:
                if x.get("key") not in known:
                    found.setdefault(mod + "/" + n, "%s %s" % (",".join(x["tags"]), x["msg"][:200]))
        if len(found) >= 2:
            break
    print(json.dumps({"found": found, "s": round(vclock.real_time() - t0)}))


def all_(walks, tested, out, j):
    import mutate
    ms = [json.loads(x) for x in open(tested)]
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["a"], d["b"], d["new"]) for d in map(json.loads, open(out))}
    ms = [m for m in ms if m["tests"] == 0 and (m["file"], m["a"], m["b"], m["new"]) not in done]
    outf = open(out, "a")
    q = queue.Queue()
    dirs = []
    for _ in range(j):
        w = tempfile.mkdtemp(prefix="mutrun_")
        os.makedirs(w + "/repo")
        subprocess.run(["cp", "-a", "/repo/src", w + "/repo/src"], check=True)
        q.put(w + "/repo")
        dirs.append(w)

    def run(m):
        repo = q.get()
        try:
            mutate.apply(m, repo)
            try:
                p = subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "one", walks], timeout=1200,
                                   env=dict(os.environ, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                m["res"] = json.loads(p.stdout.strip().split("\n")[-1]) if p.stdout.strip() else {"found": {"crash": p.stderr[-300:]}}
            except subprocess.TimeoutExpired:
                m["res"] = {"found": {"timeout": ""}}
            outf.write(json.dumps(m) + "\n")
            outf.flush()
        finally:
            shutil.copy("/repo/src/oidcop/" + m["file"], repo + "/src/oidcop/" + m["file"])
            q.put(repo)
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(run, ms))
    for w in dirs:
        shutil.rmtree(w)


if __name__ == "__main__":
    if sys.argv[1] == "prepare":
        prepare(sys.argv[2])
    elif sys.argv[1] == "one":
        one(sys.argv[2])
    else:
        all_(*sys.argv[2:5], int(sys.argv[6]))
