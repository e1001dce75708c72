"""Jobs that explore spec/Cookie.tla and replay it."""
import tlc, cookie_sys

PROPS = ["NoForgery", "RoundTrip"]
PL = {"plain"}
SHAPES = {"plain", "swap", "drop", "dup", "cut", "join", "lead"}
NONE = {"none"}
# contents, MaxCookies, mutations, MaxChanged, shapes
JOBS = {
    "trip": dict(cfgs="SomeCfgs", q=("TripContents(2, 1)", 1, NONE, 0, PL), t=("TripContents(2, 2)", 1, NONE, 0, PL)),
    "types": dict(cfgs="AllCfgs", q=("TripContents(1, 1) \\cup TripContents(0, 2)", 1, NONE, 0, PL), t=("TripContents(3, 0)", 1, NONE, 0, PL)),
    "mix": dict(cfgs="SomeCfgs", q=("MixContents", 2, NONE, 4, SHAPES), t=("MixContents", 2, {"none", "flip"}, 4, SHAPES)),
    "alter": dict(cfgs="AllCfgs", q=("MixContents", 1, cookie_sys.MUTS, 2, PL), t=("MixContents", 1, cookie_sys.MUTS, 3, PL)),
}


def explore(name, tier, workers=4):
    j = JOBS[name]
    cs, mc, mu, ch, sh = j["q" if tier == "quick" else "t"]
    return tlc.run("Cookie", dict(init="Init", nxt="Next",
                                  constants=dict(Configs="<-RunConfigs", Contents="<-RunContents", MaxCookies=mc, Mutations=mu,
                                                 MaxChanged=ch, Shapes=sh),
                                  invariants=["TypeOK", "EmitCfg"], properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs="RunConfigs == %s\nRunContents == %s" % (j["cfgs"], cs), timeout=700)


def classify(l):
    if l["a"] == "make":
        return ("make", str(l["v"]), str(l["t"])[:12], l["k"])
    return ("present", l["shape"], l["res"], str([f["mut"] for f in l["f"]]), l["n"])


FACTORY = cookie_sys.CookieSystem
NAME = "cookie"
LOOPS = 40
MAX_LEN = 80
