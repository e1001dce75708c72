"""Jobs that explore spec/Subject.tla and replay it."""
import tlc, subject_sys

INV = ["TypeOK", "Stable", "SameSector", "NotShared", "Fresh", "EmitCfg"]
C2, C3 = {"c1", "c2"}, {"c1", "c2", "c3"}
# MaxA, MaxTime, Clients
JOBS = {
    "all": dict(cfgs="CfgA, CfgB, CfgC, CfgD", q=(3, 1, C3), t=(4, 1, C3)),
    "concat": dict(cfgs="CfgN", q=(2, 0, C2), t=(2, 0, C3)),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    return tlc.run("Subject", dict(init="Init", nxt="Next",
                                   constants=dict(zip(("MaxA", "MaxTime", "Clients"), j["q" if tier == "quick" else "t"]), Configs="<-RunConfigs"),
                                   invariants=INV, properties=["Unchanging"], action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}" % j["cfgs"], timeout=700)


def classify(l):
    return tuple(str(l.get(k, "")) for k in ("a", "u", "c"))


FACTORY = subject_sys.SubjectSystem
NAME = "subject"
LOOPS = 2
MAX_LEN = 40
