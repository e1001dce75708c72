"""Jobs that explore spec/Core.tla and replay it (see check.py)."""
import json, random
import tlc, engine, core_sys

PROPS = ("OnlyAsIssued ReplayKills OnlyOwner RefusalHarmless HonouredOnlyIfLive ProcessedOnlyIfLive RevokedStays DeadStays "
         "RevokePrecise RevokeGrantPrecise RevokeClientPrecise GrantFixed ReloadNothing").split()

OFF = "{OFF}"
S2 = '{<<<<"u1","c1">>,<<"u1","c1">>>>, <<<<"u1","c1">>,<<"u1","c2">>>>, <<<<"u1","c1">>,<<"u2","c1">>>>}'

BASE = dict(Users={"u1"}, Clients={"c1", "c2"}, MaxTime=0, MaxGrants=1, MaxTokens=5, MaxPend=0, IssueOpts={"none"},
            Redirs={"ok"}, Prune=True)


def J(cfgs, acts, scopes=OFF, rts='{{"code"}}', rs="{{}}", setups="{<<>>}", **consts):
    return dict(cfgs=cfgs, acts=set(acts.split()), scopes=scopes, rts=rts, rs=rs, setups=setups, consts=consts)


# thorough: overrides for the deeper variant
JOBS = {
    "replay": (J("CfgPlain, CfgRotate", "authz redeem refresh", rs="{{}, OIDC}", MaxTokens=6,
                 Redirs={"ok", "other", "missing"}), dict(MaxTokens=7)),
    "overlap": (J("CfgPlain, CfgRotate2", "authz redeem refresh overlap", MaxTokens=5, MaxPend=2, Redirs={"ok", "other"}),
                dict(MaxTokens=5, MaxPend=3)),
    "overlap_time": (J("CfgTime", "authz redeem overlap tick revgrant remove", MaxTokens=3, MaxPend=2, MaxTime=2),
                     dict(MaxTokens=4)),
    "twocodes": (J("CfgPlain, CfgOpaque", "authz redeem refresh", setups=S2, Users={"u1", "u2"}, MaxGrants=2, MaxTokens=7,
                   Redirs={"ok", "other"}), dict(MaxTokens=8)),
    "hybrid": (J("CfgPlain, CfgTime2", "authz redeem refresh tick revoke", rts='{{"code"}, {"token"}, {"code","token"}}',
                 MaxTime=3, MaxTokens=4), dict(MaxTokens=5)),
    "oauth": (J("CfgOauth, CfgTimeO", "authz redeem refresh tick revoke", MaxTime=3, MaxTokens=4,
                IssueOpts={"none", "yes"}), dict(MaxTokens=6)),
    "time": (J("CfgTime, CfgTime2, CfgTime3, CfgTimeOpq", "authz redeem refresh tick", MaxTime=4, MaxTokens=5,
               IssueOpts={"none", "yes"}), dict(MaxTokens=6, MaxTime=5)),
    "revoke": (J("CfgPlain", "authz redeem refresh revoke revgrant revclient remove", MaxTokens=6),
               dict(MaxTokens=7)),
    "revoke2": (J("CfgPlain", "authz redeem revoke revgrant revclient remove removeclient removeuser",
                  setups=S2, Users={"u1", "u2"}, MaxGrants=2, MaxTokens=5), dict(MaxTokens=6)),
    "revoke3": (J("CfgPlain", "authz revgrant revclient remove removeclient removeuser",
                  rts='{{"token"}}', Users={"u1", "u2"}, MaxGrants=3, MaxTokens=3), dict(MaxGrants=4, MaxTokens=4)),
    "scope": (J("CfgPlain, CfgRotate", "authz redeem refresh", scopes="{OIDC, OFF, OFFP, {\"openid\", \"profile\"}}",
                rs='{{}, OIDC, OFF, OFFP, {"profile"}, {"offline_access"}, {"email"}, {"openid", "email"}}',
                IssueOpts={"none"}, MaxTokens=7), dict(MaxTokens=8)),
    "scope2": (J("CfgPlain, CfgOauth", "authz redeem refresh", scopes="{OIDC, OFFP}",
                 rs='{{}, OIDC, OFF, OFFP, {"profile"}, {"openid", "email"}}',
                 IssueOpts={"none", "yes", "no"}, MaxTokens=5), dict(MaxTokens=6)),
    "rules": (J("CfgMints, CfgNoMint, CfgGtypes, CfgGtypes2, CfgUse", "authz redeem refresh",
                scopes="{OIDC, OFF}", rs="{{}, OIDC}", IssueOpts={"none", "yes", "no"}, MaxTokens=6), dict(MaxTokens=7)),
    "rotate": (J("CfgRotate, CfgRotate2, CfgUse", "authz redeem refresh overlap", MaxTokens=7, MaxPend=1), dict(MaxTokens=8)),
    "over": (J("CfgOver, CfgOver2, CfgOver3, CfgOver4", "authz redeem refresh tick", setups=S2, MaxGrants=2, MaxTime=2, MaxTokens=5,
               Users={"u1", "u2"}), dict(MaxTokens=6, MaxTime=3)),
    "over1": (J("CfgOver, CfgOver2, CfgOver3, CfgOver4, CfgMints2, CfgUse", "authz redeem refresh tick", MaxTime=4, MaxTokens=6,
                IssueOpts={"none", "yes"}), dict(MaxTokens=7)),
    "show": (J("CfgPlain, CfgOpaque, CfgTime3", "authz redeem refresh revoke tick show", rts='{{"code", "token"}}',
               MaxTime=1, MaxTokens=4), dict(MaxTokens=5, MaxTime=2)),
    "reload": (J("CfgTime2, CfgOver2, CfgUse, CfgOpaque", "authz redeem refresh tick revoke revgrant remove reload",
                 rs="{{}, OIDC}", MaxTime=2, MaxTokens=4), dict(MaxTokens=5)),
    "reload2": (J("CfgPlain", "authz redeem refresh revclient remove removeclient removeuser reload", setups=S2,
                  Users={"u1", "u2"}, MaxGrants=2, MaxTokens=5), dict(MaxTokens=6)),
}

FOCUS = {
    "C01": "replay overlap overlap_time twocodes hybrid oauth",
    "C02": "replay overlap twocodes scope oauth show",
    "C03": "time overlap_time revoke hybrid oauth revoke2 show",
    "C04": "revoke revoke2 revoke3 twocodes hybrid",
    "C05": "scope scope2 replay",
    "C06": "rules rotate scope2 oauth over1",
    "C13": "revoke2 revoke3 twocodes reload2",
    "C21": "reload reload2",
    "C22": "time revoke revoke2 hybrid oauth over1 show",
    "C24": "over over1 rules",
    "C25": "time over over1 hybrid oauth",
}

SIM_CFGS = "{CfgPlain, CfgRotate, CfgTime3, CfgOver, CfgOver2, CfgOver3, CfgOver4, CfgMints, CfgUse, CfgOauth, CfgOpaque, CfgTimeOpq}"


def explore(name, tier, workers=4):
    job, deeper = JOBS[name]
    consts = dict(BASE)
    consts.update(job["consts"])
    if tier == "thorough":
        consts.update(deeper)
    consts.update(Configs="<-RunConfigs", AuthzScopes="<-RunScopes", RTypes="<-RunRT", RefreshScopes="<-RunRS",
                  Setups="<-RunSetups", Acts=job["acts"])
    defs = "RunConfigs == {%s}\nRunScopes == %s\nRunRT == %s\nRunRS == %s\nRunSetups == %s\n" % (
        job["cfgs"], job["scopes"], job["rts"], job["rs"], job["setups"])
    return tlc.run("CoreMC", dict(init="Init", nxt="Next", constants=consts, invariants=["Invs", "EmitCfg"],
                                  properties=PROPS, action_constraints=["Emit"], view="View"),
                   workers=workers, extra_defs=defs, timeout=700)


def simulate(tier, seed, num, depth):
    consts = dict(BASE)
    consts.update(Configs="<-RunConfigs", AuthzScopes="<-RunScopes", RTypes="<-RunRT", RefreshScopes="<-RunRS",
                  Setups="<-RunSetups", Acts=set("authz redeem refresh overlap tick revoke revgrant revclient remove reload".split()),
                  Users={"u1", "u2"}, Clients={"c1", "c2"}, MaxTime=5, MaxGrants=4, MaxTokens=14, MaxPend=2,
                  IssueOpts={"none", "yes"}, Redirs={"ok", "other"}, Horizon=depth)
    defs = ("RunConfigs == %s\nRunScopes == {OIDC, OFF, OFFP}\nRunRT == {{\"code\"}, {\"code\",\"token\"}}\n"
            "RunRS == {{}, OIDC, OFF}\nRunSetups == {<<>>}\n" % SIM_CFGS)
    return tlc.run("CoreSim", dict(init="InitH", nxt="NextH", constants=consts, invariants=["Invs"]),
                   simulate=(num, depth + 2), seed=seed, extra_defs=defs, timeout=600)


FIELDS = ("a", "why", "ep", "how", "k", "good", "issue", "redir", "within", "narrowed", "rec")


def classify(l):
    p = l.get("p") if isinstance(l.get("p"), dict) else {}
    return tuple(str(l.get(k, "")) for k in FIELDS) + (len(l.get("rscope", "")), str(sorted(l.get("rt") or [])), p.get("k", ""),
                                                       p.get("redir", ""))


FACTORY = core_sys.CoreSystem
NAME = "core"
