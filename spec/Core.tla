-------------------------------- MODULE Core --------------------------------
(* The life of sessions, grants and tokens of an OP/AS: what the authorization,
   token, userinfo and introspection endpoints and the session manager's
   revocation/removal operations may do, and what every observer (a client at the
   token endpoint, a resource server at introspection, userinfo) may see.

   Two-step token requests: an HTTP front end runs Endpoint.parse_request and
   Endpoint.process_request as two separate calls, hence ParseReq and ProcessReq are
   two actions (overlapping requests); Redeem/Refresh are the two done back to back.

   Every action leaves in `last` what was asked and what the answer has to be.  The
   conformance harness replays the actions on the real server and compares.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Users, Clients,
  Configs,          \* set of configuration records, one is picked in Init
  AuthzScopes,      \* sets of scopes that are asked for
  RTypes,           \* response types: subsets of {"code","token"}
  RefreshScopes,    \* sets of scopes asked for in a refresh ({} = no scope parameter)
  MaxTime, MaxGrants, MaxTokens, MaxPend,
  IssueOpts,        \* subset of {"none","yes","no"}: the front end's issue_refresh policy argument
  Prune,            \* TRUE: leave out combinations of two reasons to refuse
  Redirs,           \* subset of {"ok","other","missing"}
  Setups,           \* set of sequences of <<user, client>>: the order of authorizations, {<<>>} = any
  Acts              \* names of the enabled actions

VARIABLES cfg, now, gr, tk, pend, last
vars == <<cfg, now, gr, tk, pend>>

Never == 99
Kinds == {"code", "at", "rt"}

---------------------------------------------------------------------------
(* Usage rules in force (C24).  A rule is a record over a subset of
   {mints, maxu, exp}.                                                       *)
Merge(srv, pc) == [k \in DOMAIN srv \cup DOMAIN pc |-> IF k \in DOMAIN pc THEN pc[k] ELSE srv[k]]

Eff(c, k) ==
  LET pcs == cfg.client[c].rules IN
  IF k \in DOMAIN pcs
    THEN IF DOMAIN pcs[k] = {} THEN pcs[k]
         ELSE IF k \in DOMAIN cfg.rules THEN Merge(cfg.rules[k], pcs[k]) ELSE pcs[k]
    ELSE IF k \in DOMAIN cfg.rules THEN cfg.rules[k] ELSE <<>>

DefMints(k) == CASE k = "code" -> {"at", "rt", "idt"} [] k = "rt" -> {"at", "rt"} [] OTHER -> {}
MintsOf(c, k) == IF "mints" \in DOMAIN Eff(c, k) THEN Eff(c, k).mints ELSE DefMints(k)
MaxUOf(c, k) == IF k = "code" THEN 1 ELSE IF "maxu" \in DOMAIN Eff(c, k) THEN Eff(c, k).maxu ELSE 0
TTL(c, k) == IF "exp" \in DOMAIN Eff(c, k) THEN Eff(c, k).exp ELSE Never
ExpAt(ttl) == IF ttl = Never THEN Never ELSE now + ttl

RevokeOnUse(c) == IF cfg.client[c].revoke = "unset" THEN cfg.revoke ELSE cfg.client[c].revoke = "yes"
\* grant types: what the client registered, otherwise what the provider supports
GrantTypes(c) == IF cfg.client[c].gtypes = {"unset"} THEN cfg.gtypes ELSE cfg.client[c].gtypes
Serves(c, g) == cfg.client[c].gtypes = {"unset"} \/ g \in cfg.client[c].gtypes

---------------------------------------------------------------------------
GActive(g) == ~gr[g].rev /\ now <= gr[g].exp
Active(t) == /\ tk[t].maxu = 0 \/ tk[t].used < tk[t].maxu
             /\ tk[t].rev = ""
             /\ now <= tk[t].exp
Live(t) == ~gr[tk[t].g].gone /\ Active(t) /\ GActive(tk[t].g)

\* why a token is not honoured ("" = it is)
Why(t) == LET x == tk[t] g == gr[x.g] IN
  CASE g.gone -> "gone"
    [] x.rev # "" -> x.rev
    [] g.rev -> "grev"
    [] now > x.exp -> "exp"
    [] now > g.exp -> "gexp"
    [] ~Active(t) -> "used"
    [] OTHER -> ""

FindScope(t) == IF tk[t].par # 0 THEN tk[tk[t].par].scope ELSE gr[tk[t].g].scope

RECURSIVE Below(_, _)
\* t derives, directly or indirectly, from a
Below(t, a) == t # 0 /\ (tk[t].par = a \/ Below(tk[t].par, a))
Derived(a) == {t \in DOMAIN tk : Below(t, a)}

Tok(k, g, par, scope, c) ==
  [k |-> k, g |-> g, par |-> par, used |-> 0, rev |-> "", exp |-> ExpAt(TTL(c, k)),
   scope |-> scope, mints |-> MintsOf(c, k), maxu |-> MaxUOf(c, k), iat |-> now]

New(i, x) == [i |-> i, k |-> x.k, g |-> x.g, par |-> x.par, scope |-> x.scope, exp |-> x.exp]

---------------------------------------------------------------------------
Init ==
  /\ \E x \in Configs, s \in Setups : cfg = x @@ [setup |-> s]
  /\ now = 0
  /\ gr = <<>>
  /\ tk = <<>>
  /\ pend = <<>>
  /\ last = [a |-> "init"]

\* A user, logged in, authorizes a request of a client.
Authorize(u, c, S, R) ==
  /\ "authz" \in Acts
  /\ cfg.setup = <<>> \/ (Len(gr) < Len(cfg.setup) /\ cfg.setup[Len(gr) + 1] = <<u, c>>)
  /\ Len(gr) < MaxGrants /\ Len(tk) + Cardinality(R) <= MaxTokens
  /\ LET g == Len(gr) + 1
         n == Len(tk)
         code == IF "code" \in R THEN <<Tok("code", g, 0, S, c)>> ELSE <<>>
         at == IF "token" \in R THEN <<Tok("at", g, 0, S, c)>> ELSE <<>>
         new == code \o at
     IN /\ gr' = Append(gr, [u |-> u, c |-> c, scope |-> S, rev |-> FALSE, gone |-> FALSE,
                             exp |-> ExpAt(cfg.gexp), auth |-> ExpAt(cfg.auth)])
        /\ tk' = tk \o new
        /\ last' = [a |-> "authz", u |-> u, c |-> c, scope |-> S, rt |-> R,
                    new |-> [i \in DOMAIN new |-> New(n + i, new[i])]]
  /\ UNCHANGED <<cfg, now, pend>>

Owner(t) == gr[tk[t].g].c
Sensible(t, c, redir) == \/ c = Owner(t) /\ (redir = "ok" \/ tk[t].k = "code")
                         \/ redir = "ok" /\ tk[t].k # "at"

Refuse(l, why) == /\ last' = l @@ [ok |-> FALSE, why |-> why]
                  /\ UNCHANGED <<gr, tk>>

\* --- code: what is decided when the request arrives
CodeParse(t, c) ==
  IF ~Serves(c, "authorization_code") THEN "gtype"
  ELSE IF gr[tk[t].g].gone THEN "gone"
  ELSE IF tk[t].k # "code" THEN "kind"
  ELSE IF tk[t].used > 0 THEN "replay"
  ELSE IF ~Active(t) THEN Why(t)
  ELSE ""

\* --- code: what is decided when it is processed
CodeProcess(t, c, redir) ==
  IF gr[tk[t].g].gone THEN "gone"
  ELSE IF gr[tk[t].g].c # c THEN "client"
  ELSE IF redir # "ok" THEN "redir"
  ELSE IF ~Active(t) THEN Why(t)
  ELSE IF ~GActive(tk[t].g) THEN Why(t)
  ELSE IF "at" \notin tk[t].mints THEN "mints"
  ELSE ""

IssueRT(scope, issue) ==
  IF cfg.flavour = "oidc" THEN IF issue = "none" THEN "offline_access" \in scope ELSE issue = "yes"
  ELSE issue = "yes"

\* the effect and answer of a redeemed code
CodeIssue(l, t, c, issue) ==
  LET g == tk[t].g
      S == gr[g].scope
      n == Len(tk)
      at == <<Tok("at", g, t, tk[t].scope, c)>>
      wantRt == IssueRT(S, issue) /\ "rt" \in tk[t].mints /\ "refresh_token" \in GrantTypes(c)
      rt == IF wantRt THEN <<Tok("rt", g, t, tk[t].scope, c)>> ELSE <<>>
      new == at \o rt
  IN /\ n + Len(new) <= MaxTokens
     /\ tk' = [tk EXCEPT ![t].used = @ + 1] \o new
     /\ gr' = gr
     /\ last' = l @@ [ok |-> TRUE, why |-> "", scope |-> S,
                      idt |-> cfg.flavour = "oidc" /\ "openid" \in S /\ "idt" \in tk[t].mints,
                      new |-> [i \in DOMAIN new |-> New(n + i, new[i])]]

\* presenting a used code kills everything that came out of it (OpenID Connect)
Replay(l, t) ==
  IF cfg.flavour = "oidc"
  THEN /\ tk' = [x \in DOMAIN tk |-> IF Below(x, t) /\ tk[x].rev = "" THEN [tk[x] EXCEPT !.rev = "replay"] ELSE tk[x]]
       /\ gr' = gr
       /\ last' = l @@ [ok |-> FALSE, why |-> "replay"]
  ELSE Refuse(l, "replay")

\* a code without the right to mint access tokens is useless; it is gone after the attempt
CodeUseless(l, t) == /\ tk' = [tk EXCEPT ![t].used = @ + 1]
                     /\ gr' = gr
                     /\ last' = l @@ [ok |-> FALSE, why |-> "mints"]

DoCode(l, t, c, redir, issue) ==
  LET w == CodeProcess(t, c, redir) IN
  IF w = "mints" THEN CodeUseless(l, t)
  ELSE IF w # "" THEN Refuse(l, w)
  ELSE CodeIssue(l, t, c, issue)

Redeem(t, c, redir, issue) ==
  /\ "redeem" \in Acts
  /\ Prune => Sensible(t, c, redir)
  /\ LET l == [a |-> "redeem", t |-> t, c |-> c, redir |-> redir, issue |-> issue]
         w == CodeParse(t, c)
     IN IF w = "replay" THEN Replay(l, t)
        ELSE IF w # "" THEN Refuse(l, w)
        ELSE DoCode(l, t, c, redir, issue)
  /\ UNCHANGED <<cfg, now, pend>>

\* --- refresh
RefreshParse(t, c, S) ==
  IF ~Serves(c, "refresh_token") THEN "gtype"
  ELSE IF gr[tk[t].g].gone THEN "gone"
  ELSE IF tk[t].k # "rt" THEN "kind"
  ELSE IF ~Active(t) THEN Why(t)
  ELSE IF S # {} /\ ~(S \subseteq FindScope(t)) THEN "scope"
  ELSE ""

RefreshProcess(t, c) ==
  IF gr[tk[t].g].gone THEN "gone"
  ELSE IF gr[tk[t].g].c # c THEN "client"
  ELSE IF ~Active(t) THEN Why(t)
  ELSE IF ~GActive(tk[t].g) THEN Why(t)
  ELSE IF "at" \notin tk[t].mints THEN "mints"
  ELSE ""

RefreshIssue(l, t, c, S0, issue) ==
  LET g == tk[t].g
      n == Len(tk)
      S == IF S0 = {} THEN FindScope(t) ELSE S0
      at == <<Tok("at", g, t, S, c)>>
      wantRt == IssueRT(S, issue) /\ "rt" \in tk[t].mints
      rt == IF wantRt THEN <<[Tok("rt", g, t, S, c) EXCEPT !.mints = tk[t].mints, !.maxu = tk[t].maxu]>> ELSE <<>>
      new == at \o rt
  IN /\ n + Len(new) <= MaxTokens
     /\ tk' = [tk EXCEPT ![t].used = @ + 1, ![t].rev = IF RevokeOnUse(c) THEN "rotate" ELSE @] \o new
     /\ gr' = gr
     /\ last' = l @@ [ok |-> TRUE, why |-> "", scope |-> S,
                      idt |-> cfg.flavour = "oidc" /\ "openid" \in S /\ "idt" \in tk[t].mints,
                      new |-> [i \in DOMAIN new |-> New(n + i, new[i])]]

DoRefresh(l, t, c, S, issue) ==
  LET w == RefreshProcess(t, c) IN
  IF w # "" THEN Refuse(l, w) ELSE RefreshIssue(l, t, c, S, issue)

Refresh(t, c, S, issue) ==
  /\ "refresh" \in Acts
  /\ Prune => Sensible(t, c, "ok")
  /\ LET l == [a |-> "refresh", t |-> t, c |-> c, rscope |-> S, issue |-> issue,
                within |-> S \subseteq gr[tk[t].g].scope, narrowed |-> tk[t].scope # gr[tk[t].g].scope]
         w == RefreshParse(t, c, S)
     IN IF w # "" THEN Refuse(l, w) ELSE DoRefresh(l, t, c, S, issue)
  /\ UNCHANGED <<cfg, now, pend>>

\* --- overlapping requests: parsed now, processed later
ParseCode(t, c, redir, issue) ==
  /\ "overlap" \in Acts /\ Len(pend) < MaxPend
  /\ tk[t].k = "code" /\ CodeParse(t, c) = ""
  /\ pend' = Append(pend, [k |-> "code", t |-> t, c |-> c, redir |-> redir, issue |-> issue, S |-> {}])
  /\ last' = [a |-> "parse", p |-> pend'[Len(pend')]]
  /\ UNCHANGED <<cfg, now, gr, tk>>

ParseRefresh(t, c, S, issue) ==
  /\ "overlap" \in Acts /\ Len(pend) < MaxPend
  /\ tk[t].k = "rt" /\ RefreshParse(t, c, S) = ""
  /\ pend' = Append(pend, [k |-> "rt", t |-> t, c |-> c, redir |-> "ok", issue |-> issue, S |-> S])
  /\ last' = [a |-> "parse", p |-> pend'[Len(pend')]]
  /\ UNCHANGED <<cfg, now, gr, tk>>

Process(i) ==
  /\ "overlap" \in Acts /\ i \in DOMAIN pend
  /\ LET p == pend[i]
         l == [a |-> "process", i |-> i, p |-> p]
     IN IF p.k = "code" THEN DoCode(l, p.t, p.c, p.redir, p.issue)
        ELSE DoRefresh(l, p.t, p.c, p.S, p.issue)
  /\ pend' = [j \in 1..(Len(pend) - 1) |-> IF j < i THEN pend[j] ELSE pend[j + 1]]
  /\ UNCHANGED <<cfg, now>>

\* --- revocation and removal
RevokeTok(t, rec) ==
  /\ "revoke" \in Acts
  /\ ~gr[tk[t].g].gone
  /\ tk' = [x \in DOMAIN tk |-> IF (x = t \/ (rec /\ Below(x, t))) /\ tk[x].rev = ""
                                THEN [tk[x] EXCEPT !.rev = "api"] ELSE tk[x]]
  /\ last' = [a |-> "revoke_token", t |-> t, rec |-> rec]
  /\ UNCHANGED <<cfg, now, gr, pend>>

RevokeGrant(g) ==
  /\ "revgrant" \in Acts /\ ~gr[g].gone
  /\ gr' = [gr EXCEPT ![g].rev = TRUE]
  /\ last' = [a |-> "revoke_grant", g |-> g]
  /\ UNCHANGED <<cfg, now, tk, pend>>

Sess(u, c) == {g \in DOMAIN gr : gr[g].u = u /\ gr[g].c = c /\ ~gr[g].gone}

RevokeClient(u, c) ==
  /\ "revclient" \in Acts /\ Sess(u, c) # {}
  /\ gr' = [g \in DOMAIN gr |-> IF g \in Sess(u, c) THEN [gr[g] EXCEPT !.rev = TRUE] ELSE gr[g]]
  /\ last' = [a |-> "revoke_client", u |-> u, c |-> c, g |-> CHOOSE g \in Sess(u, c) : TRUE]
  /\ UNCHANGED <<cfg, now, tk, pend>>

RemoveGrant(g) ==
  /\ "remove" \in Acts /\ ~gr[g].gone
  /\ gr' = [gr EXCEPT ![g].gone = TRUE]
  /\ last' = [a |-> "remove", g |-> g]
  /\ UNCHANGED <<cfg, now, tk, pend>>

\* all a user has at one client
RemoveClient(u, c) ==
  /\ "removeclient" \in Acts /\ Sess(u, c) # {}
  /\ gr' = [g \in DOMAIN gr |-> IF g \in Sess(u, c) THEN [gr[g] EXCEPT !.gone = TRUE] ELSE gr[g]]
  /\ last' = [a |-> "remove_client", u |-> u, c |-> c]
  /\ UNCHANGED <<cfg, now, tk, pend>>

\* everything a user has
RemoveUser(u) ==
  /\ "removeuser" \in Acts /\ \E c \in Clients : Sess(u, c) # {}
  /\ gr' = [g \in DOMAIN gr |-> IF gr[g].u = u THEN [gr[g] EXCEPT !.gone = TRUE] ELSE gr[g]]
  /\ last' = [a |-> "remove_user", u |-> u]
  /\ UNCHANGED <<cfg, now, tk, pend>>

Tick ==
  /\ "tick" \in Acts /\ now < MaxTime /\ gr # <<>>
  /\ now' = now + 1
  /\ last' = [a |-> "tick"]
  /\ UNCHANGED <<cfg, gr, tk, pend>>

\* the server's state is dumped and loaded into a new server: nothing changes
Reload ==
  /\ "reload" \in Acts /\ gr # <<>> /\ pend = <<>>
  /\ last' = [a |-> "reload"]
  /\ UNCHANGED vars

(* A string is shown to an endpoint: a token as it is where tokens of its kind do not belong ("as"), or a string
   made from it: altered, cut off, extended, unsigned, put together from two tokens, from another server.
   Only access tokens at userinfo, exactly as they were issued, are good for anything.                    *)
Alterations == {"flip", "cut", "longer", "unsigned", "mixed", "foreign", "inner"}
Belongs == [code |-> "code", refresh |-> "rt", userinfo |-> "none", introspection |-> "none"]
Show(t, ep, how) ==
  /\ "show" \in Acts
  /\ how = "as" => (ep # "introspection" /\ tk[t].k # Belongs[ep])
  /\ last' = [a |-> "show", t |-> t, ep |-> ep, how |-> how, k |-> tk[t].k,
              good |-> how = "as" /\ ep = "userinfo" /\ tk[t].k = "at" /\ Live(t) /\ now <= gr[tk[t].g].auth]
  /\ UNCHANGED vars

Next ==
  \/ \E t \in DOMAIN tk, ep \in {"code", "refresh", "userinfo", "introspection"}, h \in {"as"} \cup Alterations : Show(t, ep, h)
  \/ \E u \in Users, c \in Clients, S \in AuthzScopes, R \in RTypes : Authorize(u, c, S, R)
  \/ \E t \in DOMAIN tk, c \in Clients, r \in Redirs, i \in IssueOpts : Redeem(t, c, r, i)
  \/ \E t \in DOMAIN tk, c \in Clients, S \in RefreshScopes, i \in IssueOpts : Refresh(t, c, S, i)
  \/ \E t \in DOMAIN tk, c \in Clients, r \in Redirs, i \in IssueOpts : ParseCode(t, c, r, i)
  \/ \E t \in DOMAIN tk, c \in Clients, S \in RefreshScopes, i \in IssueOpts : ParseRefresh(t, c, S, i)
  \/ \E i \in DOMAIN pend : Process(i)
  \/ \E t \in DOMAIN tk, rec \in BOOLEAN : RevokeTok(t, rec)
  \/ \E g \in DOMAIN gr : RevokeGrant(g) \/ RemoveGrant(g)
  \/ \E u \in Users, c \in Clients : RevokeClient(u, c) \/ RemoveClient(u, c)
  \/ \E u \in Users : RemoveUser(u)
  \/ Tick
  \/ Reload

Spec == Init /\ [][Next]_<<vars, last>>

---------------------------------------------------------------------------
(* What everybody must see in a state.
   tok[t]  : why token t is not honoured ("" = it is)
   ui[t]   : for access tokens, does userinfo serve it                      *)
UserinfoOk(t) == tk[t].k = "at" /\ Live(t) /\ now <= gr[tk[t].g].auth
Obs == [tok |-> [t \in DOMAIN tk |-> Why(t)],
        ui |-> [t \in DOMAIN tk |-> IF UserinfoOk(t) THEN "y" ELSE "n"],
        now |-> now]

---------------------------------------------------------------------------
(* The properties *)
TypeOK == /\ now \in 0..MaxTime
          /\ \A t \in DOMAIN tk : tk[t].k \in Kinds /\ tk[t].g \in DOMAIN gr /\ tk[t].par < t

\* C01
CodeOnce == \A t \in DOMAIN tk : tk[t].k = "code" => tk[t].used <= 1
CodeOneAT == \A t \in DOMAIN tk : tk[t].k = "code" =>
               Cardinality({x \in DOMAIN tk : tk[x].par = t /\ tk[x].k = "at"}) <= 1
ReplayKills == [][(last'.a = "redeem" /\ last'.why = "replay" /\ cfg.flavour = "oidc") =>
                   /\ \A x \in DOMAIN tk : Below(x, last'.t) => ~Live(x)'
                   /\ \A x \in DOMAIN tk : (~Below(x, last'.t)) => (Live(x) = Live(x)')]_<<vars, last>>
\* once replayed, nothing below lives
ReplayForever == \A x \in DOMAIN tk : tk[x].rev = "replay" => ~Live(x)

\* C02
OnlyOwner == [][(last'.a \in {"redeem", "refresh"} /\ last'.ok) =>
                  /\ gr[tk[last'.t].g].c = last'.c
                  /\ (last'.a = "redeem" => last'.redir = "ok")]_<<vars, last>>
RefusalHarmless == [][("ok" \in DOMAIN last' /\ ~last'.ok /\ last'.why \in {"client", "redir", "scope", "gtype", "kind"}) =>
                        tk' = tk /\ gr' = gr]_<<vars, last>>
\* C03
HonouredOnlyIfLive == [][(last'.a \in {"redeem", "refresh"} /\ last'.ok) => Live(last'.t)]_<<vars, last>>
ProcessedOnlyIfLive == [][(last'.a = "process" /\ last'.ok) => Live(last'.p.t)]_<<vars, last>>
OnlyAsIssued == [][(last'.a = "show" /\ last'.good) => (Live(last'.t) /\ tk[last'.t].k = "at" /\ last'.how = "as")]_<<vars, last>>
\* C04
RevokedStays == [][/\ \A t \in DOMAIN tk : tk[t].rev # "" => tk'[t].rev # ""
                   /\ \A g \in DOMAIN gr : (gr[g].rev => gr'[g].rev) /\ (gr[g].gone => gr'[g].gone)]_vars
DeadStays == [][\A t \in DOMAIN tk : ~Live(t) => ~Live(t)']_vars
RevokePrecise == [][last'.a = "revoke_token" =>
                     \A x \in DOMAIN tk : Live(x) => (Live(x)' <=> ~(x = last'.t \/ (last'.rec /\ Below(x, last'.t))))]_<<vars, last>>
RevokeGrantPrecise == [][last'.a \in {"revoke_grant", "remove"} =>
                     \A x \in DOMAIN tk : Live(x) => (Live(x)' <=> tk[x].g # last'.g)]_<<vars, last>>
RevokeClientPrecise == [][last'.a \in {"revoke_client", "remove_client"} =>
                     \A x \in DOMAIN tk : Live(x) =>
                       (Live(x)' <=> ~(gr[tk[x].g].u = last'.u /\ gr[tk[x].g].c = last'.c))]_<<vars, last>>
\* C05
ScopeContained == \A t \in DOMAIN tk : tk[t].scope \subseteq gr[tk[t].g].scope
ScopeOfParent == \A t \in DOMAIN tk : (tk[t].par # 0 /\ tk[tk[t].par].k = "code") => tk[t].scope = tk[tk[t].par].scope
\* C06
MintsAllowed == \A t \in DOMAIN tk : tk[t].par # 0 => tk[t].k \in tk[tk[t].par].mints
NoUnaskedRefresh == \A t \in DOMAIN tk : (tk[t].k = "rt" /\ IssueOpts = {"none"}) =>
                       /\ "offline_access" \in gr[tk[t].g].scope
                       /\ cfg.flavour = "oidc"
RtOnlyIfRegistered == \A t \in DOMAIN tk : tk[t].k = "rt" => "refresh_token" \in GrantTypes(gr[tk[t].g].c)
Rotation == \A t \in DOMAIN tk : (tk[t].k = "rt" /\ tk[t].used > 0 /\ RevokeOnUse(gr[tk[t].g].c)) => ~Live(t)
\* C13
SameSession == \A t \in DOMAIN tk : tk[t].par # 0 => tk[t].g = tk[tk[t].par].g
GrantFixed == [][\A g \in DOMAIN gr : gr'[g].u = gr[g].u /\ gr'[g].c = gr[g].c /\ gr'[g].scope = gr[g].scope]_vars
\* C21
ReloadNothing == [][last'.a = "reload" => UNCHANGED vars]_<<vars, last>>
\* C25
NoLongerThanConfigured == \A t \in DOMAIN tk : Live(t) =>
                            TTL(gr[tk[t].g].c, tk[t].k) = Never \/ now <= tk[t].iat + TTL(gr[tk[t].g].c, tk[t].k)

Invs == /\ TypeOK /\ CodeOnce /\ CodeOneAT /\ ReplayForever /\ ScopeContained /\ ScopeOfParent
        /\ MintsAllowed /\ NoUnaskedRefresh /\ RtOnlyIfRegistered /\ Rotation /\ SameSession
        /\ NoLongerThanConfigured
=============================================================================
