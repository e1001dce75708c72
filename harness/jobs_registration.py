"""Jobs that explore spec/Registration.tla and replay it."""
import tlc, registration_sys

INV = ["TypeOK", "Own", "OnlyRight", "EmitCfg"]
PROPS = ["NoTrace", "KeptAsTold", "SecretTillExpiry", "OwnToken"]
# requests, MaxR, MaxTime, MaxUse
JOBS = {
    "plain": dict(cfgs="CfgA, CfgB, CfgC, CfgD", q=("Plain", 1, 0, 0), t=("Plain", 1, 0, 2)),
    "features": dict(cfgs="CfgA, CfgB", q=("Ones", 1, 0, 1), t=("Ones \\cup Twos", 1, 0, 1)),
    "pairs": dict(cfgs="CfgC", q=("Twos", 1, 0, 0), t=("Twos", 1, 0, 1)),
    "life": dict(cfgs="CfgA, CfgB, CfgD", q=("Few", 2, 3, 1), t=("Few", 3, 3, 1)),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    v = j["q" if tier == "quick" else "t"]
    return tlc.run("Registration", dict(init="Init", nxt="Next",
                                        constants=dict(Configs="<-RunConfigs", Requests="<-RunRequests", MaxR=v[1], MaxTime=v[2], MaxUse=v[3]),
                                        invariants=INV, properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == {%s}\nRunRequests == %s" % (j["cfgs"], v[0]), timeout=700)


def classify(l):
    if l["a"] == "register":
        r = l["r"]
        return ("register", l["v"], r["app"], str(sorted(map(str, r["x"]))) or str(sorted(r["uris"])), str(sorted(r["rts"])) if not r["x"] else "")
    return tuple(str(l.get(k, "")) for k in ("a", "v", "k", "m"))


FACTORY = registration_sys.RegistrationSystem
NAME = "registration"
LOOPS = 6
MAX_LEN = 40
