"""Jobs that explore spec/Authz.tla and replay it."""
import tlc, authz_sys

PROPS = ["OnlyRegistered", "NoFragments", "NoTokensInQuery", "ExactArtifacts"]
JOBS = {
    "uri": dict(cfgs="CfgOne, CfgOneO, CfgTwo, CfgTwoO, CfgQ1, CfgQ2, CfgQ3, CfgQ4, CfgNone", acts={"uri"}, q=2, t=3),
    "resp": dict(cfgs="CfgRtAll, CfgRtDef, CfgRtO, CfgTwo, CfgQ2", acts={"resp"}, q=1, t=1),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    return tlc.run("Authz", dict(init="Init", nxt="Next",
                                 constants=dict(Configs="<-RunConfigs", Acts=j["acts"], MaxFlaws=j["q" if tier == "quick" else "t"],
                                                Thorough=tier != "quick"),
                                 invariants=["EmitCfg"], properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}" % j["cfgs"], timeout=700)


def classify(l):
    if l["a"] == "reload":
        return ("reload",)
    u = l.get("u") or {}
    if l["a"] == "uri":
        return (l["ep"], l["c"], u["base"], u["var"], u["frag"], l["verdict"], len(u["query"]))
    return (l["c"], " ".join(l["rt"]), l["mode"], l["state"])


FACTORY = authz_sys.AuthzSystem
NAME = "authz"
LOOPS = 25
MAX_LEN = 40
