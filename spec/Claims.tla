-------------------------------- MODULE Claims --------------------------------
(* Release of user claims (C15).
   At each of four release points a claim is released if some source selects it: the release
   point's base claims, its always-claims, the client's always-claims, a scope that maps to it
   (when claims by scope are switched on for the point and, if so configured, for the client),
   or the claims parameter of the authorization request, whose value restrictions hold then.
   `spec' of a claim is "no" (not selected) or the restriction that applies.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, Requests, Slots, Narrow
VARIABLES cfg, slot, last
vars == <<cfg, slot>>

Claims == {"n", "k", "w", "e", "v", "x", "z"}
Users == {"u1", "u2"}
Clients == {"c1", "c2"}
OptScopes == {"profile", "email", "xs"}
\* "w" is a claim no user has, "v" one that is false for a user
Has(u, x) == x # "w"
Points == IF cfg.flavour = "oidc" THEN {"userinfo", "id_token", "introspection", "access_token"}
          ELSE {"introspection", "access_token"}

Passing == {"null", "ess", "val", "vals", "essval"}
Failing == {"valx", "valsx", "essvalx"}
Odd == {"empty", "valvals"}

---------------------------------------------------------------------------
\* scopes
Map(m) == CASE m = "def"  -> [profile |-> {"n", "k", "w"}, email |-> {"e", "v"}, xs |-> {"x"}]
            [] m = "own"  -> [profile |-> {"n"}, email |-> {"e"}, xs |-> {"x", "k", "z"}]
            [] m = "cl"   -> [profile |-> {"e", "k"}, email |-> {"v", "z"}, xs |-> {}]
            [] m = "few"  -> [profile |-> {"n", "w"}, email |-> {}, xs |-> {}]
\* scopes the client may use: its own setting, else those it maps, else the server's setting
AllowedFor(c) == LET k == cfg.cl[c] IN
  CASE k.allowed = "some" -> {"email", "xs"}
    [] k.allowed = "none" -> {}
    [] k.allowed = "all"  -> IF k.map = "few" THEN {"profile"} ELSE IF k.map = "cl" THEN OptScopes ELSE cfg.allowed
\* a map of the client's own replaces the server's
ByScope(c, sc) == LET m == Map(IF cfg.cl[c].map = "-" THEN cfg.map ELSE cfg.cl[c].map)
                  IN UNION {m[s] : s \in sc \cap AllowedFor(c)}

\* sources at point p for client c; `only' when nothing but an ID token was asked for: the
\* client's settings for userinfo then hold for that ID token as well
ScopeOn(p, c, only) ==
  LET md == cfg.rp[p]  b == cfg.cl[c].by IN
  IF ~md.per THEN md.scope
  ELSE IF b[p] = "T" THEN TRUE
  ELSE IF only /\ b["userinfo"] # "-" THEN b["userinfo"] = "T"
  ELSE IF b[p] = "F" THEN FALSE
  ELSE md.scope
Always(p, c, only, x) ==
  LET md == cfg.rp[p]  a == cfg.cl[c].always IN
  IF ~md.per THEN md.always[x]
  ELSE IF a[p][x] # "no" THEN a[p][x]
  ELSE IF only THEN a["userinfo"][x]
  ELSE "no"
Asked(q, p, x) == IF p \in DOMAIN q.par THEN q.par[p][x] ELSE "no"

\* values demanded by configurations are u1's
Conf(u, r) == IF u = "u2" /\ r \in {"val", "vals", "essval"} THEN "valx" ELSE r
Spec(p, u, c, q, sc, only, x) ==
  IF Asked(q, p, x) # "no" THEN Asked(q, p, x)
  ELSE IF ScopeOn(p, c, only) /\ x \in ByScope(c, sc) THEN "null"
  ELSE IF Always(p, c, only, x) # "no" THEN Conf(u, Always(p, c, only, x))
  ELSE Conf(u, cfg.rp[p].base[x])

Must(p, s, sc, only) == {x \in Claims : Has(s.u, x) /\ Spec(p, s.u, s.c, s.q, sc, only, x) \in Passing}
May(p, s, sc, only)  == {x \in Claims : Has(s.u, x) /\ Spec(p, s.u, s.c, s.q, sc, only, x) \in Passing \cup Odd}
\* with a token of narrowed scope: at least the claims of its scope, at most those of the grant
Rel(p, s, sc, only) == [must |-> Must(p, s, sc, only) \cap Must(p, s, s.q.sc, only),
                        may  |-> May(p, s, sc, only) \cup May(p, s, s.q.sc, only)]
Nothing == [must |-> {}, may |-> {}]

---------------------------------------------------------------------------
None == [st |-> "none"]
Init == cfg \in Configs /\ slot = [i \in Slots |-> None] /\ last = [a |-> "init"]

Front(q) == cfg.flavour = "oidc" /\ q.rt # "code" /\ q.rt # "token"
Auth(i, u, c, q) ==
  /\ slot[i].st = "none"
  /\ cfg.flavour = "oidc" => q.rt # "token"
  /\ cfg.flavour = "oauth2" => q.rt \in {"code", "token"}
  /\ LET s == [st |-> IF q.rt \in {"code", "cit", "ci"} THEN "code" ELSE "done", u |-> u, c |-> c, q |-> q,
               at |-> IF q.rt \in {"cit", "it", "token"} THEN q.sc ELSE {"-"}]
     IN /\ slot' = [slot EXCEPT ![i] = s]
        /\ last' = [a |-> "auth", i |-> i, u |-> u, c |-> c, q |-> q,
                    idt |-> IF Front(q) THEN Rel("id_token", s, q.sc, q.rt = "id") ELSE Nothing]
  /\ UNCHANGED cfg

Redeem(i) ==
  /\ slot[i].st = "code"
  /\ slot' = [slot EXCEPT ![i].st = "rt", ![i].at = slot[i].q.sc]
  /\ last' = [a |-> "redeem", i |-> i, idt |-> IF cfg.flavour = "oidc" THEN Rel("id_token", slot[i], slot[i].q.sc, FALSE) ELSE Nothing]
  /\ UNCHANGED cfg

Refresh(i, sc) ==
  /\ slot[i].st = "rt"
  /\ sc \subseteq slot[i].q.sc
  /\ slot' = [slot EXCEPT ![i].at = sc]
  /\ last' = [a |-> "refresh", i |-> i, sc |-> sc, full |-> sc = slot[i].q.sc,
              idt |-> IF cfg.flavour = "oidc" THEN Rel("id_token", slot[i], sc, FALSE) ELSE Nothing]
  /\ UNCHANGED cfg

\* present the newest access token of the authorization everywhere
Look(i) ==
  /\ slot[i].st # "none" /\ slot[i].at # {"-"}
  /\ last' = [a |-> "look", i |-> i, rel |-> [p \in Points \ {"id_token"} |-> Rel(p, slot[i], slot[i].at, FALSE)]]
  /\ UNCHANGED vars

\* the authorization is of no more interest (the server still has it)
Forget(i) ==
  /\ slot[i].st # "none"
  /\ slot' = [slot EXCEPT ![i] = None]
  /\ last' = [a |-> "forget", i |-> i]
  /\ UNCHANGED cfg

Reload == (\E i \in Slots : slot[i].st # "none" /\ slot[i].u = "u1" /\ slot[i].c = "c1") /\ last' = [a |-> "reload"] /\ UNCHANGED vars

Next ==
  \/ \E i \in Slots, u \in Users, c \in Clients, q \in Requests : Auth(i, u, c, q)
  \/ \E i \in Slots : Redeem(i) \/ Look(i) \/ Forget(i)
  \/ \E i \in Slots, sc \in Narrow : Refresh(i, sc)
  \/ Reload

---------------------------------------------------------------------------
TypeOK == \A i \in Slots : slot[i].st \in {"none", "code", "rt", "done"}
\* C15, restated from the property: what may be released has a source and satisfies the request
Sources(p, c, q, x, only) ==
  \/ Asked(q, p, x) # "no"
  \/ cfg.rp[p].base[x] # "no"
  \/ ~cfg.rp[p].per /\ cfg.rp[p].always[x] # "no"
  \/ cfg.rp[p].per /\ cfg.cl[c].always[p][x] # "no"
  \/ cfg.rp[p].per /\ only /\ cfg.cl[c].always["userinfo"][x] # "no"
  \/ (cfg.rp[p].scope \/ cfg.rp[p].per) /\ x \in ByScope(c, q.sc)
Just(p, s, r, only) == \A x \in r.may : Sources(p, s.c, s.q, x, only) /\ Asked(s.q, p, x) \notin Failing
Selected == [][\/ last'.a = "auth" => Just("id_token", slot'[last'.i], last'.idt, last'.q.rt = "id")
               \/ last'.a \in {"redeem", "refresh"} => Just("id_token", slot'[last'.i], last'.idt, FALSE)
               \/ last'.a = "look" => \A p \in DOMAIN last'.rel : Just(p, slot'[last'.i], last'.rel[p], FALSE)]_<<vars, last>>
\* everything asked for without restriction appears if the user has it
AskedAppears == [][last'.a = "look" => \A p \in DOMAIN last'.rel : \A x \in Claims :
                    (Has(slot[last'.i].u, x) /\ Asked(slot[last'.i].q, p, x) \in Passing) => x \in last'.rel[p].must]_<<vars, last>>
\* an authorization's claims are its own business: a step on one leaves the others
Independent == [][\A i \in Slots : (last'.a # "reload" /\ i # last'.i) => slot'[i] = slot[i]]_<<vars, last>>
Bounds == [][last'.a = "look" => \A p \in DOMAIN last'.rel : last'.rel[p].must \subseteq last'.rel[p].may]_<<vars, last>>

---------------------------------------------------------------------------
\* configurations: ten modes for a release point; in configuration k the points use different ones
No == [x \in Claims |-> "no"]
Of(s) == [x \in Claims |-> IF x \in s THEN "null" ELSE "no"]
With(f) == [x \in Claims |-> IF x \in DOMAIN f THEN f[x] ELSE "no"]
Md(b, s, p, a) == [base |-> b, scope |-> s, per |-> p, always |-> a]
Mode(m) ==
  CASE m = 0 -> Md(No, FALSE, FALSE, No)
    [] m = 1 -> Md(Of({"e", "w"}), FALSE, FALSE, No)
    [] m = 2 -> Md(No, TRUE, FALSE, No)
    [] m = 3 -> Md(No, FALSE, FALSE, Of({"k", "v"}))
    [] m = 4 -> Md(Of({"x"}), FALSE, FALSE, With([e |-> "val", n |-> "valx"]))
    [] m = 5 -> Md(No, FALSE, TRUE, No)
    [] m = 6 -> Md(No, TRUE, TRUE, No)
    [] m = 7 -> Md(Of({"k"}), FALSE, TRUE, No)
    [] m = 8 -> Md(With([e |-> "ess"]), TRUE, FALSE, Of({"z"}))
    [] m = 9 -> Md(Of({"v"}), TRUE, TRUE, No)
AllPoints == <<"userinfo", "id_token", "introspection", "access_token">>
PIdx(p) == CHOOSE j \in 1..4 : AllPoints[j] = p
\* what the client's own settings are at a point, by variant
ByV(v) == CASE v = 0 -> "-" [] v = 1 -> "T" [] v = 2 -> "F"
AlwV(v) == CASE v = 0 -> No [] v = 1 -> Of({"z"}) [] v = 2 -> With([e |-> "val", z |-> "valx"]) [] v = 3 -> With([n |-> "essvalx", x |-> "null"])
Cl(k, o, map, al) == [by     |-> [p \in {AllPoints[j] : j \in 1..4} |-> ByV((k + o + PIdx(p)) % 3)],
                      always |-> [p \in {AllPoints[j] : j \in 1..4} |-> AlwV((k \div 3 + o + PIdx(p)) % 4)],
                      map |-> map, allowed |-> al]
MapSet(n) == CASE n = 0 -> <<"def", "-", "all", "-", "some">>
               [] n = 1 -> <<"own", "cl", "all", "-", "all">>
               [] n = 2 -> <<"def", "few", "all", "cl", "some">>
               [] n = 3 -> <<"own", "-", "none", "cl", "all">>
Cfg(fl, k) == LET ms == MapSet(k % 4) IN
  [name |-> fl \o ToString(k), flavour |-> fl,
   rp |-> [p \in {AllPoints[j] : j \in 1..4} |-> Mode((k + 3 * PIdx(p)) % 10)],
   map |-> ms[1], allowed |-> IF k % 5 = 3 THEN {"profile", "xs"} ELSE OptScopes,
   cl |-> [c1 |-> Cl(k, 0, ms[2], ms[3]), c2 |-> Cl(k, 1, ms[4], ms[5])]]
Cfgs(S) == {Cfg("oidc", k) : k \in S} \cup {Cfg("oauth2", k) : k \in {j \in S : j % 4 # 1}}

\* requests
ScopeSets == {{}, {"profile"}, {"email", "xs"}, OptScopes}
NoPar == [userinfo |-> No, id_token |-> No]
Req(sc, rt, par) == [sc |-> sc, rt |-> rt, par |-> par]
Rts == {"code", "id", "it", "ci", "cit", "token"}
Plain == {Req(sc, rt, NoPar) : sc \in SUBSET OptScopes, rt \in Rts}
One(p, x, r) == [NoPar EXCEPT ![p][x] = r]
Both(x, r, y, t) == [userinfo |-> With((x :> r) @@ (y :> t)), id_token |-> With((y :> r) @@ (x :> t))]
Restr == Passing \cup Failing \cup Odd
Params(xs) == {Req(sc, rt, One(p, x, r)) : sc \in {{}, {"email", "xs"}}, rt \in {"code", "id"}, p \in {"userinfo", "id_token"}, x \in xs, r \in Restr}
Pairs == {Req(sc, rt, Both(x, r, y, t)) : sc \in {{"profile"}, OptScopes}, rt \in {"code", "cit"}, x \in {"e"}, y \in {"z", "n"},
          r \in {"null", "valx"}, t \in {"ess", "valsx"}}
Few == {Req({"profile", "email"}, "code", NoPar), Req({"profile"}, "code", One("userinfo", "z", "null")), Req({"email"}, "cit", One("id_token", "e", "valx")),
        Req({}, "id", NoPar), Req(OptScopes, "token", NoPar)}

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
