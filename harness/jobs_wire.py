"""Jobs that explore spec/Wire.tla and replay it."""
import tlc, wire_sys

# MaxS, MaxTime
JOBS = {"all": dict(cfgs="CfgA, CfgB, CfgC, CfgD", q=(1, 2), t=(2, 2))}


def explore(name, tier, workers=4):
    j = JOBS[name]
    return tlc.run("Wire", dict(init="Init", nxt="Next", constants=dict(zip(("MaxS", "MaxTime"), j["q" if tier == "quick" else "t"]), Configs="<-RunConfigs"),
                                invariants=["TypeOK", "EmitCfg"], properties=["NotInQuery", "AsAgreed"], action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}" % j["cfgs"], timeout=700)


def classify(l):
    return tuple(str(l.get(k, "")) for k in ("a", "c", "rt", "mode", "st", "kind", "why", "w", "o", "ok", "f"))


FACTORY = wire_sys.WireSystem
NAME = "wire"
LOOPS = 4
MAX_LEN = 50
