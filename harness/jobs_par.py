"""Jobs that explore spec/Par.tla and replay it."""
import tlc, par_sys

PROPS = ["OnlyOwner", "OneUse", "InTime", "DeadStaysDead", "OthersCannotBurn"]
# MaxRefs, MaxTime, Contents, Beside
JOBS = {
    "one": dict(cfgs="CfgA, CfgB, CfgC", q=(1, 3, {"k1", "k2", "k3", "k4"}, set(par_sys.BESIDE)),
                t=(1, 4, {"k1", "k2", "k3", "k4"}, set(par_sys.BESIDE))),
    "two": dict(cfgs="CfgA, CfgB", q=(2, 2, {"k1", "k2"}, {"min", "override"}), t=(3, 3, {"k1", "k2"}, {"min", "override"})),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    mr, mt, ks, b = j["q" if tier == "quick" else "t"]
    return tlc.run("Par", dict(init="Init", nxt="Next",
                               constants=dict(Configs="<-RunConfigs", MaxRefs=mr, MaxTime=mt, Contents=ks, Beside=b),
                               invariants=["TypeOK", "EmitCfg"], properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}" % j["cfgs"], timeout=700)


def classify(l):
    return tuple(str(l.get(k, "")) for k in ("a", "c", "auth", "flaw", "ok", "b", "why", "how", "k"))


FACTORY = par_sys.ParSystem
NAME = "par"
LOOPS = 12
MAX_LEN = 40
