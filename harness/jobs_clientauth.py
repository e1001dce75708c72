"""Jobs that explore spec/ClientAuth.tla and replay it."""
import tlc, clientauth_sys

PROPS = ["OnlyWithCredential", "OnceOnly", "SeenStays", "RejectedDoesNotBurn"]
# quick, thorough: MaxTime, Jtis, MaxFlaws
JOBS = {
    "creds": dict(cfgs="CfgAll, CfgSplit, CfgSplit2", acts={"ask"}, q=(2, {"j1"}, 1), t=(3, {"j1"}, 2)),
    "two": dict(cfgs="CfgAll, CfgSplit, CfgSplit2", acts={"two"}, q=(1, set(), 1), t=(2, set(), 2)),
    "jti": dict(cfgs="CfgJti", acts={"ask", "reload"}, q=(1, {"j1", "j2"}, 1), t=(2, {"j1", "j2", "j3"}, 1)),
    "bearer": dict(cfgs="CfgBearer, CfgBearer2", acts={"bearer"}, q=(0, set(), 1), t=(1, set(), 1)),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    mt, jt, mf = j["q"] if tier == "quick" else j["t"]
    return tlc.run("ClientAuth", dict(init="Init", nxt="Next",
                                      constants=dict(Configs="<-RunConfigs", MaxTime=mt, Jtis=jt, MaxFlaws=mf, Acts=j["acts"]),
                                      invariants=["TypeOK", "EmitCfg"], properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}" % j["cfgs"], timeout=700)


def classify(l):
    p = l.get("p") or {}
    return (l["a"], l.get("ep"), p.get("m"), p.get("q"), p.get("key"), p.get("aud"), p.get("exp"), p.get("jti") == "none",
            l.get("why"), bool(l.get("who")), l.get("tok"), l.get("m"), l.get("claim") in ("", p.get("id"), l.get("owner")))


FACTORY = clientauth_sys.ClientAuthSystem
NAME = "clientauth"
LOOPS = 25
MAX_LEN = 80
