"""Jobs that explore spec/Provider.tla and replay it."""
import tlc, provider_sys

INV = ["TypeOK", "EmitCfg"]
JOBS = {"all": dict(cfgs="CfgA, CfgB, CfgC, CfgD, CfgE, CfgF", q=4, t=5)}


def explore(name, tier, workers=4):
    j = JOBS[name]
    return tlc.run("Provider", dict(init="Init", nxt="Next", constants=dict(MaxN=j["q" if tier == "quick" else "t"], Configs="<-RunConfigs"),
                                    invariants=INV, properties=["AsAnnounced"], action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}" % j["cfgs"], timeout=700)


def classify(l):
    return tuple(str(l.get(k, "")) for k in ("a", "m", "alg", "f", "v", "ok"))


FACTORY = provider_sys.ProviderSystem
NAME = "provider"
LOOPS = 3
MAX_LEN = 40
