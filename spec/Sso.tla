---------------------------------- MODULE Sso ----------------------------------
(* Logins, single sign-on (C19) and logout (C17).
   A session ("handle") is one authorization: who, at which client, when the user really
   logged in (at), until when that login counts (valid), until when the grant lives (exp).
   Every authorization gives the browser a cookie for its session.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, MaxS, MaxTime, Clients, Prompts, Ages, Fails, Acts
VARIABLES cfg, now, ses, last
vars == <<cfg, now, ses>>

Users == {"diana", "bob"}
Never == 99
Live(s) == s.st = "ok" /\ now < s.exp
Idx == DOMAIN ses
Exp == IF cfg.gexp = 0 THEN Never ELSE now + cfg.gexp
Of(u, c) == {i \in Idx : ses[i].u = u /\ ses[i].c = c}

Init == cfg \in Configs /\ now = 0 /\ ses = <<>> /\ last = [a |-> "init"]

\* the user really logs in; idt: does the client get an ID token?
Login(u, c, idt) ==
  /\ Len(ses) < MaxS
  /\ ses' = Append(ses, [u |-> u, c |-> c, at |-> now, valid |-> now + cfg.valid, exp |-> Exp, st |-> "ok", idt |-> idt,
                         p |-> "", m |-> 9])
  /\ last' = [a |-> "login", u |-> u, c |-> c, idt |-> idt]
  /\ UNCHANGED <<cfg, now>>

\* an authorization request of client c with the cookie of session i (0: none)
\* m: max_age in ticks, 9: not given;  same: exactly the request that session was made for
Counts(i, c, p, m) ==
  /\ i # 0
  /\ ses[i].c = c /\ Live(ses[i]) /\ now < ses[i].valid
  /\ p # "login"
  /\ m # 9 => now <= ses[i].at + m
Why(i, c, p, m) ==
  IF i = 0 THEN "nocookie" ELSE IF ses[i].c # c THEN "otherclient" ELSE IF ses[i].st # "ok" THEN "dead"
  ELSE IF now >= ses[i].exp THEN "grantexp" ELSE IF now >= ses[i].valid THEN "loginexp"
  ELSE IF p = "login" THEN "prompt" ELSE IF m # 9 /\ now > ses[i].at + m THEN "age" ELSE "ok"
Sso(i, c, p, m, same) ==
  LET ok == Counts(i, c, p, m) IN
  /\ m # 0 \/ (i # 0 /\ ses[i].at # now)
  /\ same => (i # 0 /\ ses[i].c = c /\ ses[i].p = p /\ ses[i].m = m)
  /\ (ok /\ ~same) => Len(ses) < MaxS
  /\ ses' = IF ~ok THEN ses
            ELSE IF same THEN [ses EXCEPT ![i].exp = Exp]
            ELSE Append(ses, [ses[i] EXCEPT !.exp = Exp, !.idt = FALSE, !.p = p, !.m = m])
  /\ last' = [a |-> "sso", i |-> i, c |-> c, p |-> p, m |-> m, same |-> same, why |-> Why(i, c, p, m),
              res |-> IF ok THEN "answer" ELSE IF p = "none" THEN "login_required" ELSE "page",
              u |-> IF ok THEN ses[i].u ELSE ""]
  /\ UNCHANGED <<cfg, now>>
\* cookies that are not this server's session cookies, or not whole
BadCookie(how, i, c, p) ==
  /\ last' = [a |-> "badcookie", how |-> how, i |-> i, c |-> c, p |-> p,
              res |-> IF p = "none" THEN "login_required" ELSE "page"]
  /\ UNCHANGED vars

Revoke(i) ==
  /\ ses[i].st = "ok"
  /\ ses' = [ses EXCEPT ![i].st = "dead"]
  /\ last' = [a |-> "revoke", i |-> i]
  /\ UNCHANGED <<cfg, now>>

(* logout.  The request, with the cookie of session i; hint: 0 or the session whose ID token
   is given; uri: is a return address asked for; flaw: what is wrong with the request.      *)
Flaws == {"", "nocookie", "junk", "alien", "forged", "unreg", "others", "others+cid", "nohint", "dead", "plain"}
HintFits(i, h) == IF h = 0 THEN TRUE ELSE ses[h].u = ses[i].u /\ ses[h].c = ses[i].c
Scope(i, all) == {j \in Idx : ses[j].u = ses[i].u /\ (all \/ ses[j].c = ses[i].c)}
\* ID and logout tokens can not be signed with a client secret (see DESIGN.md): nothing can be sent to such a client
Notifiable(c) == cfg.kind[c] \notin {"none", "hs"}
MustHear(i, all) == {c \in Clients : Notifiable(c) /\ \E j \in Scope(i, all) : ses[j].c = c /\ Live(ses[j]) /\ ses[j].idt}
MayHear(i, all) == {c \in Clients : Notifiable(c) /\ \E j \in Scope(i, all) : ses[j].c = c}
LogoutReq(i, h, uri, flaw) ==
  /\ flaw = "dead" => ses[i].st = "dead"
  /\ flaw # "dead" => Live(ses[i])
  /\ h # 0 => ses[h].idt
  /\ last' = [a |-> "logoutreq", i |-> i, h |-> h, uri |-> uri, flaw |-> flaw,
              ok |-> flaw = "" /\ HintFits(i, h) /\ (uri => h # 0)]
  /\ UNCHANGED vars
Logout(i, h, uri, all, fail) ==
  /\ Live(ses[i])
  /\ h # 0 => (ses[h].idt /\ HintFits(i, h))
  /\ uri => h # 0
  /\ ses' = [j \in Idx |-> IF j \in Scope(i, all) THEN [ses[j] EXCEPT !.st = "dead"] ELSE ses[j]]
  /\ last' = [a |-> "logout", i |-> i, h |-> h, uri |-> uri, all |-> all, fail |-> fail, u |-> ses[i].u, c |-> ses[i].c,
              must |-> MustHear(i, all), may |-> MayHear(i, all), scope |-> Scope(i, all)]
  /\ UNCHANGED <<cfg, now>>

Tick == now < MaxTime /\ now' = now + 1 /\ last' = [a |-> "tick"] /\ UNCHANGED <<cfg, ses>>
Reload == ses # <<>> /\ last' = [a |-> "reload"] /\ UNCHANGED vars

\* the first session is diana's
Next ==
  \/ \E u \in Users, c \in Clients, idt \in BOOLEAN :
       (ses = <<>> => u = "diana") /\ (idt => cfg.kind[c] # "hs") /\ (idt \/ "logout" \in Acts) /\ Login(u, c, idt)
  \/ "sso" \in Acts /\ \E i \in Idx \cup {0}, c \in Clients, p \in Prompts, m \in Ages, s \in BOOLEAN : Sso(i, c, p, m, s)
  \/ "sso" \in Acts /\ \E how \in {"junk", "alien", "altered", "othername", "stripped", "empty", "foreign"}, i \in {k \in Idx : k = Len(ses)}, c \in Clients, p \in {"", "none"} :
       BadCookie(how, i, c, p)
  \/ "revoke" \in Acts /\ \E i \in Idx : Revoke(i)
  \/ "logout" \in Acts /\ \E i \in Idx, h \in Idx \cup {0}, uri \in BOOLEAN :
       \/ \E f \in Flaws : /\ f \in {"unreg", "others", "others+cid", "nohint"} => uri
                           /\ f \in {"unreg", "others", "others+cid"} => (h # 0 /\ HintFits(i, h))
                           /\ f = "nohint" => h = 0
                           /\ f = "forged" => (h # 0 /\ HintFits(i, h))
                           /\ f \in {"nocookie", "junk", "alien", "plain"} => (HintFits(i, h) /\ (uri => h # 0))
                           /\ f = "dead" => (h = 0 /\ ~uri)
                           /\ LogoutReq(i, h, uri, f)
       \/ \E all \in BOOLEAN, fail \in Fails : Logout(i, h, uri, all, fail)
  \/ Tick
  \/ Reload

---------------------------------------------------------------------------
TypeOK == \A i \in Idx : ses[i].st \in {"ok", "dead"} /\ ses[i].at <= now /\ ses[i].valid = ses[i].at + cfg.valid
\* C19
OnlyWhileItCounts == [][(last'.a = "sso" /\ last'.res = "answer") =>
   /\ last'.i # 0 /\ ses[last'.i].c = last'.c /\ ses[last'.i].st = "ok" /\ now < ses[last'.i].exp
   /\ now < ses[last'.i].at + cfg.valid /\ last'.p # "login" /\ (last'.m # 9 => now - ses[last'.i].at <= last'.m)
   /\ last'.u = ses[last'.i].u]_<<vars, last>>
NoSsoExtendsLogin == [][last'.a = "sso" => \A i \in DOMAIN ses' : \E j \in Idx : ses'[i].at = ses[j].at]_<<vars, last>>
\* C17
LogoutReaches == [][last'.a = "logout" =>
   \A j \in Idx : (ses[j].u = last'.u /\ (last'.all \/ ses[j].c = last'.c)) <=> (j \in last'.scope)]_<<vars, last>>
LogoutEnds == [][last'.a = "logout" => \A j \in last'.scope : ses'[j].st = "dead"]_<<vars, last>>
LogoutOnly == [][last'.a = "logout" => \A j \in Idx \ last'.scope : ses'[j] = ses[j]]_<<vars, last>>
DeadStaysDead == [][\A j \in Idx : ses[j].st = "dead" => ses'[j].st = "dead"]_<<vars, last>>

Cfg(n, k1, k2, k3, v, g) == [name |-> n, kind |-> [c1 |-> k1, c2 |-> k2, c3 |-> k3], valid |-> v, gexp |-> g]
LogoutCfgs == {Cfg("a", "bc", "fc", "none", 50, 0), Cfg("b", "bc", "bcfc", "bc", 50, 0), Cfg("c", "none", "bc", "fcs", 50, 0),
               Cfg("d", "fcs", "hs", "bc", 50, 0)}
SsoCfgs == {Cfg("e", "bc", "fc", "none", 2, 0), Cfg("f", "bc", "fc", "none", 3, 1), Cfg("g", "bc", "fc", "none", 1, 2),
            Cfg("h", "bc", "fc", "none", 4, 2)}
CfgI == Cfg("i", "bc", "fc", "none", 2, 0)
CfgJ == Cfg("j", "fcs", "bcfc", "bc", 3, 2)
AllFails == {[kind |-> "none", who |-> {}]} \cup {[kind |-> k, who |-> w] : k \in {"error", "down", "odd"}, w \in SUBSET Clients \ {{}}}
FewFails == {[kind |-> "none", who |-> {}], [kind |-> "down", who |-> Clients], [kind |-> "error", who |-> {"c1"}]}

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
