"""Jobs that explore spec/Dpop.tla and replay it."""
import tlc, dpop_sys

PROPS = ["Proven", "Bound", "NothingElse", "StaysBound"]
# proofs, Slots, MaxTok
JOBS = {
    "proofs": dict(cfgs="CfgA, CfgB, CfgC, CfgD", q=("Many", {1}, 1), t=("Many", {1}, 2)),
    "keys": dict(cfgs="CfgB, CfgC", q=("Few", {1, 2}, 3), t=("Few", {1, 2}, 4)),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    v = j["q" if tier == "quick" else "t"]
    return tlc.run("Dpop", dict(init="Init", nxt="Next", constants=dict(Configs="<-RunConfigs", Proofs="<-RunProofs", Slots=v[1], MaxTok=v[2]),
                                invariants=["TypeOK", "EmitCfg"], properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}\nRunProofs == %s" % (j["cfgs"], v[0]), timeout=700)


def classify(l):
    p = l.get("p")
    if isinstance(p, dict):
        return (l["a"], l["v"], l["how"]) + tuple(str(p[x]) for x in ("s", "alg", "typ", "htu", "htm", "hdr", "body"))
    return (l["a"], str(l.get("how", "")))


FACTORY = dpop_sys.DpopSystem
NAME = "dpop"
LOOPS = 8
MAX_LEN = 60
