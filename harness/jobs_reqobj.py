"""Jobs that explore spec/ReqObj.tla and replay it."""
import tlc, reqobj_sys

PROPS = ["OnlyOwnKey", "StillChecked", "NotForOthers"]
JOBS = {"all": dict(cfgs="CfgA, CfgB, CfgC", q=3, t=4)}


def explore(name, tier, workers=4):
    j = JOBS[name]
    return tlc.run("ReqObj", dict(init="Init", nxt="Next",
                                  constants=dict(Configs="<-RunConfigs", MaxFlaws=j["q" if tier == "quick" else "t"]),
                                  invariants=["EmitCfg"], properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}" % j["cfgs"], timeout=700)


def classify(l):
    if l["a"] == "reload":
        return ("reload",)
    o = l["o"]
    return (l["c"], o["signer"], o["alg"], o["iss"], o["cid"], o["inner"], o["ref"], o["outer"])


FACTORY = reqobj_sys.ReqObjSystem
NAME = "reqobj"
LOOPS = 25
MAX_LEN = 40
