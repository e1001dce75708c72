#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough]   - decides one property (see DESIGN.md)."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
import vclock
import importlib, json, random, traceback
from concurrent.futures import ThreadPoolExecutor

real = vclock.real_time
ROOT = os.path.dirname(HERE)
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
TIER = None

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = real()
        self.divs = []          # (source, {walk, params, divs})
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": 0}
        self.jobs = {}
        self.assumptions = []
        self.notes = []
        self.reloads = False    # put dumps and reloads into the behaviours

    def left(self, total):
        return max(5, total - (real() - self.t0))

    # -- state graph -> replay
    def graph_jobs(self, mod, names, budgets, par=3):
        """names: jobs; budgets[name] = steps"""
        import engine
        with ThreadPoolExecutor(par) as ex:
            futs = {n: ex.submit(mod.explore, n, self.tier, 2 if par > 2 else 4) for n in names}
            for n in names:
                res = futs[n].result()
                self.model_ok(res, n)
                futs[n] = res
        for n in names:
            res = futs[n]
            g = engine.Graph(res["lines"])
            res["lines"] = None
            walks, cov, tot, steps = g.walks(random.Random("%s/%s" % (self.seed, n)), budget=budgets[n],
                                             classify=getattr(mod, "classify", None),
                                             max_len=getattr(mod, "MAX_LEN", 60), loops=getattr(mod, "LOOPS", 3))
            ws = [g.concrete(w) for w in walks]
            self.replay(mod, n, ws, dict(states=res["stats"].get("states", 0), transitions=tot, covered=cov,
                                         tlc_generated=res["stats"].get("generated", 0), depth=res["stats"].get("depth", 0)))

    def model_ok(self, res, what):
        import tlc
        if not res["ok"]:
            raise tlc.TLCError("TLC on %s: rc %s\n%s" % (what, res["rc"], res["out"][-2500:]))

    def replay(self, mod, name, ws, info, budget_s=240):
        import engine
        if self.reloads and mod.NAME != "core":
            rnd = random.Random("%s/%s/reload" % (self.seed, name))
            ws = [engine.with_reloads(w, rnd) for w in ws]
            name = mod.NAME + "/" + name
        r = engine.run_walks(mod.FACTORY, ws, seed=self.seed, budget_s=budget_s, prop=self.prop)
        self.cov["states"] += info.get("states", 0)
        self.cov["transitions"] += info.get("transitions", 0)
        self.cov["traces_validated_against_impl"] += r["walks"]
        self.cov["samples"] += r["steps"]
        self.jobs[name] = dict(info, walks=r["walks"], planned=r["planned"], steps=r["steps"], counts=r["counts"])
        for d in r["divs"]:
            self.divs.append((mod.NAME, name, d))
        return r

    def sim_job(self, mod, num, depth):
        res = mod.simulate(self.tier, self.seed, num, depth)
        self.model_ok(res, "simulate")
        ws = [{"cfg": ln["cfg"], "steps": ln["h"]} for ln in res["lines"]]
        self.replay(mod, "simulate", ws, dict(tlc_generated=res["stats"].get("generated", 0)))

    def finish(self):
        prop = self.prop
        mine, other, known = [], [], []
        kf = load_known()
        for src, job, d in self.divs:
            for x in d["divs"]:
                (mine if prop in x["tags"] or "*" in x["tags"] else other).append((src, job, d, x))
        out = []
        for src, job, d, x in mine:
            k = match_known(kf, prop, x)
            if k:
                known.append(k)
                continue
            out.append((src, job, d, x))
        for src, job, d, x in other[:5]:
            print("note: divergence that does not concern %s (%s): %s" % (prop, ",".join(x["tags"]), x["msg"][:300]))
        for k in sorted(set(known)):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for k in kf:
            if k["property"] == prop and k["what"] not in known and k.get("status") == "known":
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        path = None
        if out:
            path = os.path.join(EVIDENCE, "replay_%s.json" % prop)
            src, job, d, x = min(out, key=lambda o: len(o[2]["walk"]["steps"]) if "walk" in o[2] else 0)
            with open(path, "w") as f:
                json.dump({"adapter": src, "job": job, "property": prop, "divergence": x, "params": d.get("params"),
                           "walk": d.get("walk")}, f, indent=1, default=str)
            print("violated: %s" % x["msg"][:600])
            print("  at step %s: %s" % (x.get("at"), json.dumps(x.get("step"), default=str)[:400]))
        ev = {"property": prop, "tier": self.tier, "seed": self.seed, "level": LEVEL.get(prop, "model_checking"),
              "coverage": self.cov, "wall_s": round(real() - self.t0, 1), "violations": len(out),
              "assumptions": self.assumptions or ASSUMPTIONS, "jobs": self.jobs}
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %s, %.0fs" % (prop, self.tier, json.dumps(self.cov), real() - self.t0))
        if out:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0


LEVEL = {}
ASSUMPTIONS = ["the endpoints are driven in process the way an HTTP front end does (parse_request, process_request); "
               "wall clock and HTTP fetches are replaced",
               "small scope: the numbers of users, clients, grants, tokens and clock ticks of the TLC configurations"]


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "known"]


def match_known(kf, prop, x):
    for k in kf:
        if k["property"] == prop and k["match"] == x.get("key"):
            return k["what"]
    return None


def core_check(run):
    import jobs_core as m
    focus = m.FOCUS[run.prop].split()
    rest = [n for n in m.JOBS if n not in focus]
    q = run.tier == "quick"
    budgets = {n: (7000 if q else 80000) for n in focus}
    budgets.update({n: (1200 if q else 6000) for n in rest})
    if run.prop in ("C21",):
        rest = []
    else:
        rest = [n for n in rest if not n.startswith("reload")]
    if q:
        # a changing selection of the other jobs
        rnd = random.Random("%s%s" % (run.seed, run.prop))
        rest = rnd.sample(rest, min(5, len(rest)))
    run.graph_jobs(m, focus + rest, budgets)
    run.sim_job(m, 150 if q else 2500, 25 if q else 40)


def clientauth_check(run):
    import jobs_clientauth as m
    q = run.tier == "quick"
    if run.prop == "C08":
        run.graph_jobs(m, ["jti", "creds"], {"jti": 40000 if q else 300000, "creds": 4000 if q else 20000})
    else:
        run.graph_jobs(m, list(m.JOBS), {"creds": 40000 if q else 250000, "two": 10000 if q else 60000,
                                         "jti": 4000 if q else 20000, "bearer": 2000 if q else 10000})


def authz_check(run):
    import jobs_authz as m
    q = run.tier == "quick"
    if run.prop == "C09":
        run.graph_jobs(m, ["uri", "resp"], {"uri": 60000 if q else 400000, "resp": 3000 if q else 10000})
    else:
        run.graph_jobs(m, ["resp", "uri"], {"resp": 30000 if q else 100000, "uri": 3000 if q else 10000})


def two_checks(a, b):
    def f(run):
        a(run)
        b(run)
    return f


def table_check(modname, jobs, sim=True):
    """jobs: {name: (steps quick, steps thorough)}"""
    def f(run):
        m = importlib.import_module(modname)
        i = 0 if run.tier == "quick" else 1
        run.graph_jobs(m, list(jobs), {n: b[i] for n, b in jobs.items()})
        if sim and hasattr(m, "simulate"):
            run.sim_job(m, *m.SIM[run.tier])
    return f


CHECKS = {p: core_check for p in "C01 C02 C03 C04 C05 C06 C13 C21 C22 C24 C25".split()}
CHECKS.update(C09=authz_check, C10=authz_check)
CHECKS.update(C11=table_check("jobs_pkce", {"one": (20000, 100000), "two": (20000, 400000)}))
CHECKS.update(C12=table_check("jobs_par", {"one": (10000, 60000), "two": (20000, 200000)}))
CHECKS.update(C26=table_check("jobs_reqobj", {"all": (40000, 300000)}))
CHECKS.update(C18=table_check("jobs_cookie", {"trip": (30000, 200000), "types": (20000, 200000), "mix": (60000, 600000),
                                              "alter": (30000, 400000)}))
CHECKS.update(C19=table_check("jobs_sso", {"sso": (20000, 200000), "both": (8000, 100000)}))
CHECKS.update(C17=table_check("jobs_sso", {"logout": (12000, 150000), "both": (8000, 100000)}))
CHECKS.update(C15=table_check("jobs_claims", {"conf": (6000, 120000), "req": (5000, 80000), "two": (2500, 80000)}))
CHECKS.update(C16=two_checks(table_check("jobs_idtoken", {"one": (9000, 60000), "two": (3000, 80000)}),
                             table_check("jobs_sso", {})))
CHECKS.update(C14=table_check("jobs_subject", {"all": (12000, 140000), "concat": (600, 3000)}))
CHECKS.update(C20=table_check("jobs_registration", {"plain": (4400, 20000), "features": (5000, 30000), "pairs": (2400, 12000), "life": (14000, 200000)}))
CHECKS.update(C23=table_check("jobs_dpop", {"proofs": (3000, 12000), "keys": (10000, 150000)}))

CHECKS.update(C27=table_check("jobs_provider", {"all": (5000, 60000)}))
CHECKS.update(C28=table_check("jobs_login", {"all": (16000, 150000), "time": (8000, 80000)}))


def reload_check(run):
    """C21 on every other module's behaviours, with dumps and reloads put in between"""
    core_check(run)
    run.reloads = True
    for modname, jobs in RELOADED.items():
        table_check(modname, jobs, sim=False)(run)


RELOADED = {
    "jobs_clientauth": {"jti": (2500, 40000), "creds": (1200, 20000), "bearer": (500, 5000)},
    "jobs_authz": {"uri": (2500, 40000), "resp": (800, 10000)},
    "jobs_pkce": {"one": (1200, 20000)},
    "jobs_par": {"one": (1200, 20000)},
    "jobs_reqobj": {"all": (1500, 20000)},
    "jobs_registration": {"features": (600, 10000), "life": (1200, 20000)},
    "jobs_sso": {"both": (1500, 30000)},
    "jobs_subject": {"all": (1200, 20000)},
    "jobs_dpop": {"keys": (1000, 20000)},
    "jobs_idtoken": {"one": (1200, 20000)},
    "jobs_claims": {"conf": (1500, 30000)},
    "jobs_login": {"time": (1000, 20000)},
    "jobs_provider": {"all": (500, 10000)},
}
CHECKS.update(C21=reload_check)


def wire_check(run):
    """C29: the module's own behaviours, then the other modules' with every answer put on the wire"""
    table_check("jobs_wire", {"all": (40000, 500000)})(run)
    i = 0 if run.tier == "quick" else 1
    import jobs_core
    run.graph_jobs(jobs_core, list(WATCHED_CORE), {n: (1500, 20000)[i] for n in WATCHED_CORE})
    for modname, jobs in WATCHED.items():
        table_check(modname, jobs, sim=False)(run)


WATCHED_CORE = ["hybrid", "scope", "oauth", "rules"]
WATCHED = {m: j for m, j in RELOADED.items() if m not in ("jobs_cookie",)}
WATCHED.update(jobs_sso={"logout": (1500, 30000), "both": (1000, 20000)}, jobs_registration={"features": (1500, 20000), "life": (1200, 20000), "plain": (600, 5000)},
               jobs_authz={"uri": (2500, 40000), "resp": (2500, 30000)})
CHECKS.update(C29=wire_check)
CHECKS.update(C07=clientauth_check, C08=clientauth_check)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(EVIDENCE), exist_ok=True)
    run = Run(prop, tier, seed)
    try:
        CHECKS[prop](run)
    except Exception:
        traceback.print_exc()
        return 2
    return run.finish()


if __name__ == "__main__":
    sys.exit(main())
