"""Jobs that explore spec/Claims.tla and replay it."""
import tlc, claims_sys

PROPS = ["Selected", "AskedAppears", "Independent", "Bounds"]
JOBS = {
    # every configuration, every scope and response type
    "conf": dict(cfgs=("Cfgs(0..29)", "Cfgs(0..119)"), req="Plain", slots="{1}", narrow="{{}, {\"profile\"}}"),
    # every kind of claims parameter
    "req": dict(cfgs=("Cfgs({2, 5, 9, 14})", "Cfgs(0..19)"), req="Params({\"e\", \"z\", \"w\"}) \\cup Pairs", slots="{1}", narrow="{{}}"),
    # authorizations side by side
    "two": dict(cfgs=("Cfgs({6, 15})", "Cfgs({3, 6, 10, 15, 17})"), req="Few", slots="{1, 2}", narrow="{{}}"),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    return tlc.run("Claims", dict(init="Init", nxt="Next",
                                  constants=dict(Configs="<-RunConfigs", Requests="<-RunRequests", Slots="<-RunSlots", Narrow="<-RunNarrow"),
                                  invariants=["TypeOK", "EmitCfg"], properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, timeout=700,
                   extra_defs="RunConfigs == %s\nRunRequests == %s\nRunSlots == %s\nRunNarrow == %s"
                   % (j["cfgs"][tier != "quick"], j["req"], j["slots"], j["narrow"]))


def classify(l):
    q = l.get("q")
    if q:
        par = sorted((p, r) for p in q["par"] for r in q["par"][p].values() if r != "no")
        return ("auth", l["c"], q["rt"], len(q["sc"]), str(par))
    return (l["a"], str(l.get("full")))


FACTORY = claims_sys.ClaimsSystem
NAME = "claims"
LOOPS = 2
MAX_LEN = 60
