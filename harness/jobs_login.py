"""Jobs that explore spec/Login.tla and replay it."""
import tlc, login_sys

INV = ["TypeOK", "EmitCfg"]
PROPS = ["OnlyRightPassword", "ByTheChosen", "AsAsked", "AgainIsNoLogin", "Fixed"]
# MaxP, MaxS, MaxTime
JOBS = {"all": dict(cfgs="CfgA, CfgB, CfgC, CfgD, CfgE, CfgF", q=(1, 2, 0), t=(1, 2, 1), reqs="AllReqs"),
        "time": dict(cfgs="CfgA, CfgB, CfgC, CfgD", q=(1, 2, 1), t=(2, 2, 1), reqs="SomeReqs")}


def explore(name, tier, workers=4):
    j = JOBS[name]
    return tlc.run("Login", dict(init="Init", nxt="Next",
                                 constants=dict(zip(("MaxP", "MaxS", "MaxTime"), j["q" if tier == "quick" else "t"]), Configs="<-RunConfigs", Reqs="<-" + j["reqs"], Later="<-SomeReqs"),
                                 invariants=INV, properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}" % j["cfgs"], timeout=700)


def classify(l):
    r = l.get("r", {})
    return tuple(str(l.get(k, "")) for k in ("a", "pw", "tok", "ok", "k", "m")) + tuple(str(r.get(k, "")) for k in ("acrv", "claim", "cv", "lh"))


FACTORY = login_sys.LoginSystem
NAME = "login"
LOOPS = 2
MAX_LEN = 40
