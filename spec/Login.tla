---------------------------------- MODULE Login ----------------------------------
(* Logins (C28): which authentication method is chosen for a request, what it takes to log in with it and that the
   login is recorded, and told the client, as what it was.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, MaxP, MaxS, MaxTime, Reqs, Later
VARIABLES cfg, now, pages, ses, last
vars == <<cfg, now, pages, ses>>

Users == {"u1", "u2"}
M == DOMAIN cfg.methods
First(S) == CHOOSE i \in S : \A j \in S : i <= j
\* the methods that give one of the classes asked for; the classes in order of preference
RECURSIVE ForAcrs(_)
ForAcrs(s) == IF s = <<>> THEN 0
              ELSE IF \E i \in M : cfg.methods[i].acr = s[1] THEN First({i \in M : cfg.methods[i].acr = s[1]}) ELSE ForAcrs(Tail(s))
LoginHint(h) == CASE h = "email" -> cfg.lh [] OTHER -> <<>>
\* r: acrv  acr_values, in order;  claim/cv  what the claims parameter says about acr;  lh  login_hint
Wanted(r) == IF r.acrv # <<>> THEN r.acrv
             ELSE IF r.cv # <<>> THEN r.cv
             ELSE LoginHint(r.lh)
Chosen(r) == IF Len(cfg.methods) = 1 THEN 1 ELSE IF Wanted(r) = <<>> THEN 1 ELSE ForAcrs(Wanted(r))
Range(s) == {s[i] : i \in DOMAIN s}
\* the class asked for as a claim is that of the login (if not there may be no ID token, and if there is one it says what the class is)
Fits(r, acr) == r.cv = <<>> \/ acr \in Range(r.cv)

Init == cfg \in Configs /\ now = 0 /\ pages = <<>> /\ ses = <<>> /\ last = [a |-> "init"]
NewSes(u, acr, r, at) == ses' = Append(ses, [u |-> u, acr |-> acr, cv |-> r.cv, at |-> at])

\* an authorization request without a cookie.  w: what comes along for HTTP basic authentication, if that is what is chosen
Pws == {"right", "wrong", "others", "empty", "case"}
Ask(r, u, pw) ==
  LET m == Chosen(r) IN
  LET k == IF m = 0 THEN "none" ELSE cfg.methods[m].kind IN
  /\ (k # "basic") => (u = "u1" /\ pw = "right")
  /\ CASE k = "page" -> /\ Len(pages) < MaxP
                        /\ pages' = Append(pages, [r |-> r, m |-> m, at |-> now]) /\ UNCHANGED ses
       [] k = "auto" -> Len(ses) < MaxS /\ NewSes("u1", cfg.methods[m].acr, r, now) /\ UNCHANGED pages
       [] k = "basic" /\ pw = "right" -> Len(ses) < MaxS /\ NewSes(u, cfg.methods[m].acr, r, now) /\ UNCHANGED pages
       [] OTHER -> UNCHANGED <<pages, ses>>
  /\ last' = [a |-> "ask", r |-> r, u |-> u, pw |-> pw, m |-> m, k |-> k]
  /\ UNCHANGED <<cfg, now>>
\* the form of the page comes back
Toks == {"own", "altered", "foreign", "idtoken", "none"}
Submit(p, u, pw, tok) ==
  LET ok == pw = "right" /\ tok = "own" IN
  /\ ok => Len(ses) < MaxS
  /\ tok = "idtoken" => ses # <<>>
  /\ IF ok THEN NewSes(u, cfg.methods[pages[p].m].acr, pages[p].r, now) ELSE UNCHANGED ses
  /\ last' = [a |-> "submit", p |-> p, u |-> u, pw |-> pw, tok |-> tok, ok |-> ok]
  /\ UNCHANGED <<cfg, now, pages>>
\* what the client is told: ID token, userinfo
Tell(s) == /\ last' = [a |-> "tell", s |-> s, u |-> ses[s].u, acr |-> ses[s].acr, ok |-> Fits(ses[s], ses[s].acr)]
           /\ UNCHANGED vars
\* another request, of the same client, that comes with the cookie of session s (and, for basic authentication, credentials)
Again(s, r, u, pw) ==
  LET m == Chosen(r) IN
  LET k == IF m = 0 THEN "none" ELSE cfg.methods[m].kind IN
  LET who == CASE k = "basic" -> u [] k = "auto" -> "u1" [] OTHER -> ses[s].u IN
  /\ Len(ses) < MaxS
  /\ (k # "basic") => (u = "u1" /\ pw = "right")
  /\ IF k = "none" \/ (k = "basic" /\ pw # "right") THEN UNCHANGED ses
     ELSE IF who = ses[s].u THEN ses' = Append(ses, [ses[s] EXCEPT !.cv = r.cv])
     ELSE NewSes(who, cfg.methods[m].acr, r, now)
  /\ last' = [a |-> "again", s |-> s, r |-> r, u |-> who, pw |-> pw, k |-> k, ok |-> Len(ses') > Len(ses), new |-> who # ses[s].u]
  /\ UNCHANGED <<cfg, now, pages>>
Tick == now < MaxTime /\ now' = now + 1 /\ last' = [a |-> "tick"] /\ UNCHANGED <<cfg, pages, ses>>
Reload == last' = [a |-> "reload"] /\ UNCHANGED vars

Next == \/ \E r \in Reqs, u \in Users, pw \in Pws : Ask(r, u, pw)
        \/ \E p \in DOMAIN pages, u \in Users, pw \in Pws, t \in Toks : (pw # "right" => t = "own") /\ Submit(p, u, pw, t)
        \/ \E s \in DOMAIN ses : Tell(s) \/ (\E r \in Later, u \in Users, pw \in {"right", "wrong"} : Again(s, r, u, pw))
        \/ Tick \/ Reload

---------------------------------------------------------------------------
TypeOK == \A s \in DOMAIN ses : ses[s].u \in Users /\ ses[s].at <= now
\* C28
OnlyRightPassword == [][Len(ses') > Len(ses) => ((last'.a = "again" /\ (last'.k = "basic" => last'.pw = "right")) \/ (last'.a = "submit" /\ last'.pw = "right" /\ last'.tok = "own")
                                               \/ (last'.a = "ask" /\ (last'.k = "auto" \/ (last'.k = "basic" /\ last'.pw = "right"))))]_<<vars, last>>
ByTheChosen == [][/\ (last'.a = "submit" /\ last'.ok) => ses'[Len(ses')].acr = cfg.methods[pages[last'.p].m].acr
                  /\ (last'.a = "ask" /\ Len(ses') > Len(ses)) => ses'[Len(ses')].acr = cfg.methods[Chosen(last'.r)].acr]_<<vars, last>>
\* the class asked for is met if there is any method for it, the earlier the better; if there is none nobody is logged in
AsAsked == [][last'.a = "ask" /\ Len(cfg.methods) > 1 /\ Wanted(last'.r) # <<>> =>
                IF last'.m = 0 THEN \A i \in M : cfg.methods[i].acr \notin Range(Wanted(last'.r))
                ELSE \E n \in DOMAIN Wanted(last'.r) : /\ cfg.methods[last'.m].acr = Wanted(last'.r)[n]
                                                       /\ \A k \in 1..n - 1, i \in M : cfg.methods[i].acr # Wanted(last'.r)[k]]_<<vars, last>>
\* a login that is relied on again stays the one it was; whoever gives his own credentials is not made somebody else by a cookie
AgainIsNoLogin == [][(last'.a = "again" /\ Len(ses') > Len(ses)) =>
    LET n == ses'[Len(ses')] IN /\ n.u = last'.u
                               /\ IF n.u = ses[last'.s].u THEN n.acr = ses[last'.s].acr /\ n.at = ses[last'.s].at
                                  ELSE last'.k # "page" /\ n.acr = cfg.methods[Chosen(last'.r)].acr /\ n.at = now]_<<vars, last>>
Fixed == [][\A s \in DOMAIN ses : ses'[s] = ses[s]]_vars

R(av, kind, cv, lh) == [acrv |-> av, claim |-> kind, cv |-> cv, lh |-> lh]
Plain == R(<<>>, "none", <<>>, "")
AllReqs == {Plain, R(<<"a1">>, "none", <<>>, ""), R(<<"a2">>, "none", <<>>, ""), R(<<"a3">>, "none", <<>>, ""), R(<<"a9">>, "none", <<>>, ""),
            R(<<"a9", "a2">>, "none", <<>>, ""), R(<<"a2", "a1">>, "none", <<>>, ""), R(<<"a3", "a2">>, "none", <<>>, ""),
            R(<<>>, "other", <<>>, ""), R(<<>>, "null", <<>>, ""), R(<<>>, "essential", <<>>, ""),
            R(<<>>, "value", <<"a2">>, ""), R(<<>>, "value", <<"a9">>, ""), R(<<>>, "values", <<"a3", "a2">>, ""), R(<<>>, "values", <<"a9", "a1">>, ""),
            R(<<"a2">>, "value", <<"a1">>, ""), R(<<"a1">>, "value", <<"a1">>, "email"),
            R(<<>>, "none", <<>>, "email"), R(<<>>, "none", <<>>, "odd"), R(<<>>, "other", <<>>, "email"), R(<<>>, "userinfo", <<>>, "")}
SomeReqs == {Plain, R(<<"a1">>, "none", <<>>, ""), R(<<"a9">>, "none", <<>>, ""), R(<<>>, "value", <<"a2">>, ""), R(<<>>, "values", <<"a9", "a1">>, ""), R(<<>>, "null", <<>>, "email")}
K(a, k) == [acr |-> a, kind |-> k]
Cfg(n, ms, lh) == [name |-> n, methods |-> ms, lh |-> lh]
CfgA == Cfg("pages", <<K("a1", "page"), K("a2", "page"), K("a3", "auto")>>, <<"a2">>)
CfgB == Cfg("same", <<K("a1", "page"), K("a1", "auto"), K("a2", "basic")>>, <<"a9", "a1">>)
CfgC == Cfg("basic", <<K("a1", "basic"), K("a2", "page")>>, <<>>)
CfgD == Cfg("one", <<K("a1", "page")>>, <<"a1">>)
CfgE == Cfg("auto", <<K("a2", "auto"), K("a3", "page"), K("a1", "page")>>, <<"a3", "a1">>)
CfgF == Cfg("onebasic", <<K("a2", "basic")>>, <<"a2">>)

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
