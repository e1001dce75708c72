------------------------------- MODULE CoreMC -------------------------------
(* Instances of Core for TLC: configurations of the server, and how the state
   graph and random behaviours are handed to the conformance harness.        *)
EXTENDS Core

R(m, u, e) == [mints |-> m, maxu |-> u, exp |-> e]
AllKinds == {"at", "rt", "idt"}
StdRules(ec, ea, er) == [code |-> [mints |-> AllKinds, maxu |-> 1, exp |-> ec],
                         at |-> [exp |-> ea],
                         rt |-> [mints |-> AllKinds, exp |-> er]]
StdClient == [rules |-> <<>>, revoke |-> "unset", gtypes |-> {"unset"}]
SrvGrants == {"authorization_code", "refresh_token"}
Cfg(n, fl, rules, gexp, auth, rev, cl) ==
  [name |-> n, flavour |-> fl, rules |-> rules, gexp |-> gexp, auth |-> auth, revoke |-> rev,
   gtypes |-> SrvGrants, client |-> cl, tokens |-> "jwt"]
Std2 == [c1 |-> StdClient, c2 |-> StdClient]

\* everything lives long
CfgPlain == Cfg("plain", "oidc", StdRules(Never, Never, Never), Never, Never, FALSE, Std2)
CfgOauth == [CfgPlain EXCEPT !.name = "oauth", !.flavour = "oauth2"]
CfgOpaque == [CfgPlain EXCEPT !.name = "opaque", !.tokens = "opaque"]
\* refresh tokens rotate, except at c2
CfgRotate == [CfgPlain EXCEPT !.name = "rotate", !.revoke = TRUE, !.client.c2.revoke = "no"]
CfgRotate2 == [CfgPlain EXCEPT !.name = "rotate2", !.revoke = FALSE, !.client.c1.revoke = "yes"]
\* different lifetimes for everything
CfgTime == Cfg("time", "oidc", StdRules(1, 1, 2), Never, Never, FALSE, Std2)
CfgTime2 == Cfg("time2", "oidc", StdRules(1, 2, 1), 2, Never, FALSE, Std2)
CfgTime3 == Cfg("time3", "oidc", StdRules(2, 2, 3), 3, 1, FALSE, Std2)
CfgTimeOpq == [CfgTime EXCEPT !.name = "timeopq", !.tokens = "opaque"]
CfgTimeO == [CfgTime2 EXCEPT !.name = "timeo", !.flavour = "oauth2"]
\* refresh tokens with a limited number of uses, clients with their own rules
CfgUse == [CfgPlain EXCEPT !.name = "use", !.rules = [code |-> R(AllKinds, 1, Never), at |-> [exp |-> Never],
                                                     rt |-> R(AllKinds, 2, Never)],
                           !.client.c2.rules = [rt |-> [maxu |-> 1]]]
CfgMints == [CfgPlain EXCEPT !.name = "mints",
              !.rules = [code |-> R({"at", "rt"}, 1, Never), at |-> [exp |-> Never], rt |-> R({"at"}, 0, Never)],
              !.client.c2.rules = [code |-> [mints |-> {"at", "idt"}], rt |-> [mints |-> {"at", "rt", "idt"}]]]
CfgMints2 == [CfgPlain EXCEPT !.name = "mints2",
              !.rules = [code |-> [exp |-> 1], at |-> [exp |-> 1], rt |-> R({"rt", "idt"}, 0, Never)],
              !.client.c2.rules = [rt |-> <<>>, at |-> [exp |-> 2]]]
CfgNoMint == [CfgPlain EXCEPT !.name = "nomint", !.client.c2.rules = [code |-> [mints |-> {"rt", "idt"}]]]
CfgGtypes == [CfgPlain EXCEPT !.name = "gtypes", !.client.c1.gtypes = {"authorization_code"},
                              !.client.c2.gtypes = {"refresh_token", "authorization_code"}]
CfgGtypes2 == [CfgPlain EXCEPT !.name = "gtypes2", !.gtypes = {"authorization_code"},
                              !.client.c2.gtypes = {"refresh_token"}]
\* c1 overrides lifetimes one by one, c2 switches the server's rules off
CfgOver == Cfg("over", "oidc", StdRules(1, 1, 2), Never, Never, FALSE,
               [c1 |-> [StdClient EXCEPT !.rules = [at |-> [exp |-> 2], rt |-> [maxu |-> 1]]],
                c2 |-> [StdClient EXCEPT !.rules = [code |-> <<>>, rt |-> [exp |-> 1, mints |-> {"at"}]]]])
CfgOver2 == Cfg("over2", "oidc", StdRules(2, 1, 1), 2, Never, TRUE,
               [c1 |-> [StdClient EXCEPT !.rules = [code |-> [exp |-> 1], rt |-> [exp |-> 2]], !.revoke = "no"],
                c2 |-> [StdClient EXCEPT !.rules = [at |-> <<>>]]])

\* kinds the server has no rules for, the clients partly do
CfgOver3 == Cfg("over3", "oidc", [code |-> R(AllKinds, 1, 2)], Never, Never, FALSE,
               [c1 |-> [StdClient EXCEPT !.rules = [at |-> [exp |-> 1], rt |-> R({"at", "rt"}, 1, 2)]],
                c2 |-> [StdClient EXCEPT !.rules = [code |-> [exp |-> 1], rt |-> [exp |-> 1]]]])
\* no server rules at all
CfgOver4 == Cfg("over4", "oidc", <<>>, 3, Never, FALSE,
               [c1 |-> [StdClient EXCEPT !.rules = [code |-> [exp |-> 1], at |-> [exp |-> 2], rt |-> [maxu |-> 1, exp |-> 2]]],
                c2 |-> StdClient])

OIDC == {"openid"}
OFF == {"openid", "offline_access"}
OFFP == {"openid", "offline_access", "profile"}

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> Obs']))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
