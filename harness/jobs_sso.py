"""Jobs that explore spec/Sso.tla and replay it."""
import tlc, sso_sys

PROPS = ["OnlyWhileItCounts", "NoSsoExtendsLogin", "LogoutReaches", "LogoutEnds", "LogoutOnly", "DeadStaysDead"]
C2, C3 = {"c1", "c2"}, {"c1", "c2", "c3"}
P4 = {"", "none", "login", "consent"}
# MaxS, MaxTime, Clients, Prompts, Ages, Fails, Acts
JOBS = {
    "sso": dict(cfgs="SsoCfgs", q=(2, 3, C2, P4, {9, 0, 1, 2}, "FewFails", {"sso", "revoke"}),
                t=(3, 3, C2, P4, {9, 0, 1, 2}, "FewFails", {"sso", "revoke"})),
    "logout": dict(cfgs="LogoutCfgs", qcfgs='{x \\in LogoutCfgs : x.name \\in {"b", "d"}}', q=(3, 0, C3, {""}, {9}, "FewFails", {"logout"}), t=(3, 0, C3, {""}, {9}, "AllFails", {"logout"})),
    "both": dict(cfgs='{CfgI, CfgJ}', q=(2, 2, C2, {"", "none"}, {9}, "NoFails", {"sso", "logout"}),
                 t=(2, 3, C2, {"", "none"}, {9, 1}, "NoFails", {"sso", "logout", "revoke"})),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    ms, mt, cs, ps, ages, fails, acts = j["q" if tier == "quick" else "t"]
    return tlc.run("Sso", dict(init="Init", nxt="Next",
                               constants=dict(Configs="<-RunConfigs", MaxS=ms, MaxTime=mt, Clients=cs, Prompts=ps, Ages=ages,
                                              Fails="<-RunFails", Acts=acts),
                               invariants=["TypeOK", "EmitCfg"], properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs='NoFails == {[kind |-> "none", who |-> {}]}\nRunConfigs == %s\nRunFails == %s' % (j.get("qcfgs", j["cfgs"]) if tier == "quick" else j["cfgs"], fails), timeout=800)


def simulate(tier, seed, num, depth):
    return tlc.run("SsoSim", dict(init="InitH", nxt="NextH",
                                  constants=dict(Configs="<-RunConfigs", MaxS=6, MaxTime=5, Clients=C3, Prompts=P4, Ages={9, 0, 1, 2, 3},
                                                 Fails="<-RunFails", Acts={"sso", "logout", "revoke"}, Horizon=depth),
                                  invariants=["TypeOK"]),
                   simulate=(num, depth + 2), seed=seed, extra_defs="RunConfigs == LogoutCfgs \\cup SsoCfgs \\cup {CfgI, CfgJ}\nRunFails == AllFails", timeout=600)


SIM = {"quick": (120, 25), "thorough": (2500, 40)}


def classify(l):
    a = l["a"]
    if a == "sso":
        return (a, l["why"], l["res"], l["p"], l["m"], l["same"])
    if a == "logout":
        return (a, l["all"], l["uri"], bool(l["h"]), str(sorted(l["must"])), str(sorted(l["may"])), l["fail"]["kind"], len(l["scope"]))
    return (a,) + tuple(str(l.get(k, "")) for k in ("flaw", "ok", "how", "p", "uri"))


FACTORY = sso_sys.SsoSystem
NAME = "sso"
LOOPS = 12
MAX_LEN = 50
