"""Jobs that explore spec/IdToken.tla and replay it."""
import tlc, idtoken_sys

PROPS = ["Who", "Answer", "Lifetime", "SameLogin", "Hashes"]
# MaxTime, Slots, Rts, Nonces, Acrs, Agos, Asks
ALL = set(idtoken_sys.RT)
JOBS = {
    "one": dict(cfgs="CfgA, CfgB, CfgC, CfgD, CfgE, CfgF", q=(2, {1}, ALL, {"-", "n1"}, {"a1", "a2"}, {0, 1}, {"none", "all", "acr"}),
                t=(3, {1}, ALL, {"-", "n1", "n2"}, {"a1", "a2"}, {0, 1, 2}, {"none", "all", "acr"})),
    "two": dict(cfgs="CfgA, CfgB, CfgE", q=(1, {1, 2}, {"code", "cit"}, {"-", "n1"}, {"a1", "a2"}, {0}, {"none", "all"}),
                t=(2, {1, 2}, {"code", "cit", "id"}, {"-", "n1", "n2"}, {"a1", "a2"}, {0, 1}, {"none"})),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    k = ("MaxTime", "Slots", "Rts", "Nonces", "Acrs", "Agos", "Asks")
    return tlc.run("IdToken", dict(init="Init", nxt="Next", constants=dict(zip(k, j["q" if tier == "quick" else "t"]), Configs="<-RunConfigs"),
                                   invariants=["TypeOK", "EmitCfg"], properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}" % j["cfgs"], timeout=700)


def classify(l):
    return tuple(str(l.get(k, "")) for k in ("a", "c", "u", "rt", "nonce", "acr", "ago", "ask"))


FACTORY = idtoken_sys.IdTokenSystem
NAME = "idtoken"
LOOPS = 3
MAX_LEN = 50
