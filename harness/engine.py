"""State graphs -> walks -> replay on the real code (in parallel); divergences."""
import json, os, random, sys, time, traceback, hashlib
from collections import defaultdict, deque
import multiprocessing as mp


class Div(dict):
    """a divergence between the model and the code.
    tags: the properties it violates; msg; at: step index"""

    def __init__(self, tags, msg, **kw):
        dict.__init__(self, tags=sorted(set(tags)), msg=msg, **kw)


class Graph:
    """state graph as printed by an Emit action constraint: {c, f, t, l, o}"""

    def __init__(self, lines):
        self.ids = {}
        self.cfg = {}
        self.init = []
        self.out = defaultdict(list)    # node -> edge indices (leaving the node)
        self.loops = defaultdict(list)  # node -> edge indices (self loops)
        self.edges = []                 # (u, v, l, o)
        self.cfg_of = {}
        seen = set()
        # TLC's workers print in any order
        lines = sorted(((ln.get("f"), ln.get("t", []), json.dumps(ln.get("l", 0), sort_keys=True), ln) for ln in lines),
                       key=lambda x: x[:3])
        for f, t, lkey, ln in lines:
            if "cfg" in ln:
                n = self._id(ln["f"])
                if n not in self.cfg_of:
                    self.cfg_of[n] = ln["cfg"]
                    self.init.append(n)
                continue
            u, v = self._id(ln["f"]), self._id(ln["t"])
            key = (u, v, lkey)
            if key in seen:
                continue
            seen.add(key)
            i = len(self.edges)
            self.edges.append((u, v, ln["l"], ln["o"]))
            (self.loops if u == v else self.out)[u].append(i)
        # bfs tree
        self.parent = {n: None for n in self.init}
        self.root = {n: n for n in self.init}
        self.depth = {n: 0 for n in self.init}
        q = deque(self.init)
        while q:
            u = q.popleft()
            for i in self.out[u]:
                v = self.edges[i][1]
                if v not in self.parent:
                    self.parent[v] = i
                    self.root[v] = self.root[u]
                    self.depth[v] = self.depth[u] + 1
                    q.append(v)

    def _id(self, f):
        f = tuple(f)
        return self.ids.setdefault(f, len(self.ids))

    def path(self, n):
        p = []
        while self.parent[n] is not None:
            i = self.parent[n]
            p.append(i)
            n = self.edges[i][0]
        return p[::-1]

    def walks(self, rnd, budget=None, classify=None, max_len=60, loops=3):
        """walks covering the edges; budget: max number of steps in total.
        Rare classes of edges (classify(l) -> key) come first, so that any budget covers all
        kinds of transitions.  returns (walks, covered_edge_count); walk = (init node, [edge...])"""
        classify = classify or (lambda l: (l["a"], l.get("why")))
        reach = [i for i, e in enumerate(self.edges) if e[0] in self.parent]
        rnd.shuffle(reach)
        byclass = defaultdict(list)
        cls = {}
        used = defaultdict(int)
        for i in reach:
            u = self.edges[i][0]
            cls[i] = (self.cfg_of[self.root[u]].get("name"),) + tuple(classify(self.edges[i][2]))
            byclass[cls[i]].append(i)

        def rare(cand):
            rnd.shuffle(cand)
            cand.sort(key=lambda j: used[cls[j]])
            return cand
        # round robin over the classes
        order = []
        pools = [p for p in byclass.values()]
        rnd.shuffle(pools)
        k = 0
        while pools:
            nxt = []
            for p in pools:
                order.append(p[k])
                if k + 1 < len(p):
                    nxt.append(p)
            pools = nxt
            k += 1
        covered = set()
        walks = []
        steps = 0
        for i in order:
            if i in covered:
                continue
            if budget is not None and steps >= budget:
                break
            e = self.edges[i]
            p = self.path(e[0])
            w = list(p)
            u = e[0]
            w.append(i)
            for j in w:
                used[cls[j]] += 1
            covered.update(w)
            u = e[1]
            while len(w) < max_len:
                cand = [j for j in self.loops[u] if j not in covered]
                if cand:
                    take = cand[:max_len - len(w)] if budget is None else rare(cand)[:loops]
                    for j in take:
                        w.append(j)
                        covered.add(j)
                        used[cls[j]] += 1
                cand = [j for j in self.out[u] if j not in covered]
                if not cand:
                    break
                j = rare(cand)[0]
                w.append(j)
                covered.add(j)
                used[cls[j]] += 1
                u = self.edges[j][1]
            steps += len(w)
            walks.append((self.root[e[0]], w))
        return walks, len(covered), len(reach), steps

    def concrete(self, walk):
        n, w = walk
        return {"cfg": self.cfg_of[n], "steps": [{"l": self.edges[i][2], "o": self.edges[i][3]} for i in w]}


def from_repo(e):
    tb = e.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    here = os.path.dirname(os.path.abspath(__file__))
    return any("/oidcop/" in f for f in files) and not files[-1].startswith(here)


def run_walk(adapter, walk):
    """returns (number of steps done, [Div])"""
    import opsys
    adapter.begin(walk)
    n = 0
    for k, st in enumerate(walk["steps"]):
        try:
            divs = adapter.step(st["l"], st.get("o"))
        except Exception as e:
            if type(e).__name__ == "DumpError":
                return n, [Div({"C21"}, str(e), at=k, step=st["l"])]
            if from_repo(e):
                # the code under test blew up where the model has an ordinary step
                return n, [Div({"*"}, "unexpected exception in the code: %r" % e, at=k, step=st["l"],
                               trace=traceback.format_exc()[-1500:])]
            raise RuntimeError("harness failure at step %d (%s): %s" % (k, json.dumps(st["l"])[:300],
                                                                     traceback.format_exc()))
        n += 1
        if opsys.WIRE:
            divs = list(divs or []) + [Div({"C29"}, x) for x in opsys.WIRE]
            del opsys.WIRE[:]
        if divs:
            for d in divs:
                d["at"] = k
                d["step"] = st["l"]
            return n, divs
    return n, adapter.end() or []


def with_reloads(walk, rnd):
    """the same behaviour with dumps and reloads (stuttering steps) in between"""
    steps = list(walk["steps"])
    if len(steps) < 2:
        return walk
    for k in sorted(rnd.sample(range(1, len(steps)), min(len(steps) - 1, rnd.choice([1, 1, 2, 4]))), reverse=True):
        steps.insert(k, {"l": {"a": "reload"}, "o": steps[k - 1].get("o")})
    return dict(walk, steps=steps)


def reload_matters(factory, walk, seed):
    """Does this behaviour diverge because of the reloads in it?  Run it with and without them."""
    plain = dict(walk, steps=[s for s in walk["steps"] if s["l"]["a"] != "reload"])
    for k in range(3):
        if run_walk(factory(walk["cfg"], seed=seed + k), walk)[1] and not run_walk(factory(walk["cfg"], seed=seed + k), plain)[1]:
            return True
    return False


def _worker(args):
    import opsys
    factory, walks, seed, deadline, stop_after, prop = args
    opsys.WIRE = [] if prop == "C29" else None
    mine = 0
    res = {"steps": 0, "walks": 0, "divs": [], "counts": defaultdict(int), "error": None}
    pool = {}
    try:
        for idx, w in walks:
            if time.monotonic() > deadline:
                break
            key = json.dumps(w["cfg"], sort_keys=True)
            ad = pool.get(key)
            if ad is None or ad.worn():
                ad = pool[key] = factory(w["cfg"], seed=seed * 1000003 + idx)
            n, divs = run_walk(ad, w)
            res["steps"] += n
            res["walks"] += 1
            for st in w["steps"][:n]:
                res["counts"]["%s/%s" % (st["l"]["a"], st["l"].get("why", ""))] += 1
            if divs:
                pool.pop(key)
                done = w["steps"][:n + 1]
                if any(st["l"]["a"] == "reload" for st in done) and not any("C21" in d["tags"] for d in divs) \
                        and len(res["divs"]) < 12 and reload_matters(factory, dict(w, steps=done), seed):
                    for d in divs:
                        d["tags"] = sorted(set(d["tags"]) | {"C21"})
                        d["msg"] = "only after a dump and reload: " + d["msg"]
                res["divs"].append({"walk": dict(w, steps=w["steps"][:n]), "params": ad.params(), "divs": divs})
                mine += any(prop is None or prop in d["tags"] or "*" in d["tags"] for d in divs)
                if mine >= stop_after or len(res["divs"]) >= 40:
                    break
        for ad in pool.values():
            for k, v in getattr(ad, "stats", {}).items():
                res["counts"][k] += v
    except Exception:
        res["error"] = traceback.format_exc()
    res["counts"] = dict(res["counts"])
    return res


def run_walks(factory, walks, seed=1, procs=None, budget_s=60, stop_after=3, prop=None):
    procs = procs or min(8, os.cpu_count() or 1)
    deadline = time.monotonic() + budget_s
    jobs = [[] for _ in range(procs)]
    # keep walks of one configuration together: servers are reused
    ordered = sorted(range(len(walks)), key=lambda i: json.dumps(walks[i]["cfg"], sort_keys=True))
    ncfg = len({json.dumps(w["cfg"], sort_keys=True) for w in walks})
    for k, i in enumerate(ordered):
        jobs[k % procs if ncfg <= 2 * procs else (k * procs) // max(1, len(ordered))].append((i, walks[i]))
    tot = {"steps": 0, "walks": 0, "divs": [], "counts": defaultdict(int), "planned": len(walks)}
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        for r in pool.imap_unordered(_worker, [(factory, j, seed, deadline, stop_after, prop) for j in jobs if j]):
            if r["error"]:
                pool.terminate()
                raise RuntimeError(r["error"])
            tot["steps"] += r["steps"]
            tot["walks"] += r["walks"]
            tot["divs"] += r["divs"]
            for k, v in r["counts"].items():
                tot["counts"][k] += v
    tot["counts"] = dict(tot["counts"])
    return tot
