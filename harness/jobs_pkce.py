"""Jobs that explore spec/Pkce.tla and replay it."""
import tlc, pkce_sys

PROPS = ["NeedsVerifier", "ChallengeIsNoProof", "Once"]
ALL = "CfgAll, CfgAllO, CfgS, CfgSO, CfgPl"
# MaxCodes, Seeds, Rich
JOBS = {
    "one": dict(cfgs=ALL, q=(1, {"v1", "v2"}, True), t=(1, {"v1", "v2", "v3"}, True)),
    "two": dict(cfgs=ALL, q=(2, {"v1", "v2"}, False), t=(2, {"v1", "v2"}, False)),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    mc, seeds, rich = j["q" if tier == "quick" else "t"]
    return tlc.run("Pkce", dict(init="Init", nxt="Next",
                                constants=dict(Configs="<-RunConfigs", MaxCodes=mc, Seeds=seeds, Rich=rich),
                                invariants=["TypeOK", "EssentialAsks", "MethodEnabled", "EmitCfg"], properties=PROPS,
                                action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}" % j["cfgs"], timeout=700)


def kind_of(l):
    if l["a"] == "authorize":
        return ("authorize", l["via"], len(l["ch"]), l["ch"][1:], l["d"], l["ok"], l["c"])
    if l["a"] == "redeem":
        v = l["ver"]
        kind = "none" if not v else "right" if l["verdict"] != "no" else "same" if v == l["ch"] else \
            "otherseed" if l["ch"] and v[0] != l["ch"][0] else "othertransform"
        return ("redeem", kind, l["m"], l["st"], l["verdict"], l["extra"])
    return (l["a"],)


def classify(l):
    return tuple(str(x) for x in kind_of(l))


FACTORY = pkce_sys.PkceSystem
NAME = "pkce"
LOOPS = 12
MAX_LEN = 60
