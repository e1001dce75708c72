----------------------------- MODULE Registration -----------------------------
(* Dynamic client registration (C20): which requests are accepted, what an accepted one gives the
   client, what may be done with it and that nothing else changes. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, Requests, MaxR, MaxTime, MaxUse
VARIABLES cfg, now, regs, used, last
vars == <<cfg, now, regs, used>>

Idx == DOMAIN regs
---------------------------------------------------------------------------
(* A request: application type, response types (a set of names), kinds of redirect URIs, and
   further features <<what, how>>, at most one "how" for each "what". *)
R(app, rts, uris, x) == [app |-> app, rts |-> rts, uris |-> uris, x |-> x]

Worst(S) == IF "no" \in S THEN "no" ELSE IF "may" \in S THEN "may" ELSE "yes"

Uri(r, k) ==
  CASE k \in {"frag", "customfrag"} -> "no"
    [] r.app = "native" -> (CASE k \in {"custom", "local", "localq"} -> "yes"
                              [] k \in {"https", "httpsq", "https2"} -> "may"
                              [] OTHER -> "no")
    [] OTHER -> (CASE k \in {"https", "httpsq", "https2"} -> "yes"
                   [] k = "custom" -> "no"
                   \* plain http is for the code flow only
                   [] OTHER -> IF r.rts \in {{}, {"code"}} THEN "may" ELSE "no")

Rts(r) == IF r.rts \subseteq cfg.rts THEN "yes" ELSE "no"
Apps == {"", "web", "native"}

Pages == {"policy_uri", "logo_uri", "tos_uri"}
Lists == {"grant_types", "default_acr_values"}
Caps == Lists \cup {"request_object_signing_alg", "userinfo_signed_response_alg", "id_token_signed_response_alg", "subject_type",
                    "token_endpoint_auth_method", "token_endpoint_auth_signing_alg"}
Encs == {"request_object_encryption", "userinfo_encrypted_response", "id_token_encrypted_response"}
Takes == {"client_id", "client_secret", "registration_access_token", "client_secret_expires_at", "client_id_issued_at", "client_salt",
          "registration_client_uri"}

Features ==
       {<<p, v>> : p \in Pages, v \in {"same", "second", "otherhost", "otherport", "otherscheme", "subdomain"}}
  \cup {<<c, v>> : c \in Caps, v \in {"good", "bad"}} \cup {<<c, "part">> : c \in Lists}
  \cup {<<e, v>> : e \in Encs, v \in {"both", "alg", "enc", "badalg", "badenc"}}
  \cup {<<"take", t>> : t \in Takes}
  \cup {<<"request_uris", v>> : v \in {"plain", "frag", "query", "two", "twofrag"}}
  \cup {<<"post_logout_redirect_uri", v>> : v \in {"plain", "query", "frag"}}
  \cup {<<"initiate_login_uri", v>> : v \in {"https", "http"}}
  \cup {<<"sector_identifier_uri", v>> : v \in {"all", "more", "some", "empty", "down", "html", "string", "dict"}}
  \cup {<<"keys", v>> : v \in {"jwks"}}
  \cup {<<"shape", v>> : v \in {"nouris", "emptyuris", "appother", "notjson", "badint", "blank", "extras"}}

Same(r) == "https" \in r.uris \/ "httpsq" \in r.uris
Feature(r, w, h) ==
  CASE w \in Pages -> (CASE h = "same" -> IF Same(r) THEN "yes" ELSE "no"
                         [] h = "second" -> IF "https2" \in r.uris THEN "yes" ELSE "no"
                         [] OTHER -> "no")
    [] w \in Caps -> IF h = "good" THEN "yes" ELSE "no"
    [] w \in Encs -> IF h \in {"both", "alg"} THEN "yes" ELSE "no"
    [] w = "take" -> "yes"
    [] w = "request_uris" -> (CASE h = "query" -> "no" [] h = "twofrag" -> "may" [] OTHER -> "yes")
    [] w = "post_logout_redirect_uri" -> IF h = "frag" THEN "no" ELSE "yes"
    [] w = "initiate_login_uri" -> IF h = "https" THEN "yes" ELSE "no"
    [] w = "sector_identifier_uri" -> IF h \in {"all", "more"} THEN "yes" ELSE "no"
    [] w = "keys" -> "yes"
    [] w = "shape" -> IF h \in {"blank", "extras"} THEN "yes" ELSE "no"

Verdict(r) == Worst({Uri(r, k) : k \in r.uris} \cup {Rts(r)} \cup {Feature(r, f[1], f[2]) : f \in r.x})

---------------------------------------------------------------------------
Init == cfg \in Configs /\ now = 0 /\ regs = <<>> /\ used = 0 /\ last = [a |-> "init"]

\* a registration is identified by what it was given: id, secret and registration token number n
Register(r) ==
  LET v == Verdict(r) n == Len(regs) + 1 IN
  /\ Len(regs) < MaxR
  /\ last' = [a |-> "register", r |-> r, v |-> v]
  /\ regs' = IF v = "yes" THEN Append(regs, [id |-> n, secret |-> n, rat |-> n, asked |-> r, t |-> now]) ELSE regs
  /\ used' = 0
  /\ UNCHANGED <<cfg, now>>

Live(i) == cfg.life = 0 \/ now <= regs[i].t + cfg.life
\* the registration access token of j (0: made up, none at all, the client's secret ...) for client i
Toks == {"junk", "none", "secret", "blank"}
Step(l) == used < MaxUse /\ used' = used + 1 /\ last' = l /\ UNCHANGED <<cfg, now, regs>>
Read(i, j) == Step([a |-> "read", i |-> i, j |-> j, k |-> "", v |-> CASE i # j -> "no" [] Live(i) -> "yes" [] OTHER -> "may"])
ReadWith(i, k) == Step([a |-> "read", i |-> i, j |-> 0, k |-> k, v |-> "no"])
\* an authorization and its redemption with the secret of j
Methods == {"client_secret_post", "client_secret_basic", "client_secret_jwt"}
Has(i, f) == \E x \in regs[i].asked.x : x[1] = f
Use(i, j, m) == /\ (i = j \/ m = "client_secret_post")
                /\ Step([a |-> "use", i |-> i, j |-> j, m |-> m,
                         v |-> IF i # j \/ ~Live(i) THEN "no" ELSE IF Has(i, "token_endpoint_auth_method") THEN "may" ELSE "yes"])
UseKey(i) == /\ <<"keys", "jwks">> \in regs[i].asked.x
             /\ Step([a |-> "use", i |-> i, j |-> i, m |-> "private_key_jwt",
                      v |-> IF Live(i) /\ ~Has(i, "token_endpoint_auth_method") THEN "yes" ELSE "may"])
Tick == now < MaxTime /\ regs # <<>> /\ now' = now + 1 /\ used' = 0 /\ last' = [a |-> "tick"] /\ UNCHANGED <<cfg, regs>>
Reload == Step([a |-> "reload"]) /\ regs # <<>>

Next == \/ \E r \in Requests : Register(r)
        \/ \E i, j \in Idx : Read(i, j) \/ \E m \in Methods : Use(i, j, m)
        \/ \E i \in Idx : (\E k \in Toks : ReadWith(i, k)) \/ Use(i, 0, "client_secret_post") \/ UseKey(i)
        \/ Tick \/ Reload

---------------------------------------------------------------------------
TypeOK == Len(regs) <= MaxR /\ now \in 0..MaxTime
\* C20
Own == \A i, j \in Idx : (regs[i].id = regs[j].id \/ regs[i].secret = regs[j].secret \/ regs[i].rat = regs[j].rat) => i = j
OnlyRight == \A i \in Idx :
   /\ \A k \in regs[i].asked.uris : k \notin {"frag", "customfrag"} /\ (k \in {"http", "local", "localq"} => regs[i].asked.app = "native")
   /\ regs[i].asked.rts \subseteq cfg.rts
   /\ \A f \in regs[i].asked.x : f[2] \notin {"bad", "part", "frag", "otherhost", "badalg", "badenc"} \/ f[1] = "request_uris"
NoTrace == [][(last'.a = "register" /\ last'.v # "yes") => regs' = regs]_<<vars, last>>
KeptAsTold == [][\A i \in Idx : regs'[i] = regs[i]]_<<vars, last>>
SecretTillExpiry == [][(last'.a = "use" /\ last'.v # "no") => (last'.i = last'.j /\ Live(last'.i))
                       \/ last'.m = "private_key_jwt"]_<<vars, last>>
OwnToken == [][(last'.a = "read" /\ last'.v # "no") => last'.i = last'.j]_<<vars, last>>

---------------------------------------------------------------------------
Kinds == {"https", "httpsq", "https2", "http", "local", "localq", "custom", "frag", "customfrag"}
RtSets == {{}, {"code"}, {"id_token"}, {"code", "code id_token"}, {"code id_token token"}, {"nonsense"}, {"code", "nonsense"}, {"code token"}}
AppSets == {"", "web", "native"}
UriSets == {{k} : k \in Kinds} \cup {{k, l} : k \in Kinds, l \in Kinds}
Plain == {R(a, s, u, {}) : a \in AppSets, s \in RtSets, u \in UriSets}
Bases == {R("", {}, {"https"}, {}), R("web", {"code"}, {"https", "https2"}, {}), R("native", {"code"}, {"custom"}, {})}
With(b, S) == [b EXCEPT !.x = S]
Ones == {With(b, {f}) : b \in Bases, f \in Features}
Key(f) == f[1] \in Pages \cup {"take"} => f[2] \in {"same", "otherhost", "otherscheme", "client_id", "client_secret"}
Some == {f \in Features : Key(f)}
Twos == {With(R("", {}, {"https"}, {}), {p[1], p[2]}) : p \in {q \in Some \X Some : q[1][1] # q[2][1]}}
\* a few of each for histories
Few == {R("", {}, {"https"}, {}), R("native", {"code"}, {"custom"}, {}), R("web", {"code"}, {"https", "https2"}, {<<"keys", "jwks">>}),
        R("web", {"code"}, {"https"}, {<<"take", "client_id">>}),
        R("web", {"code"}, {"frag"}, {}), R("web", {"code"}, {"https"}, {<<"request_uris", "query">>, <<"keys", "jwks">>}),
        R("web", {"code"}, {"https"}, {<<"logo_uri", "otherhost">>, <<"keys", "jwks">>}),
        R("", {}, {"https"}, {<<"sector_identifier_uri", "some">>}), R("", {}, {"https"}, {<<"grant_types", "part">>})}

All == {"code", "token", "id_token", "code token", "code id_token", "id_token token", "code id_token token", "none"}
Cfg(n, rts, life, narrow) == [name |-> n, rts |-> rts, life |-> life, narrow |-> narrow]
CfgA == Cfg("a", All, 0, FALSE)
CfgB == Cfg("b", {"code", "code id_token"}, 2, TRUE)
CfgC == Cfg("c", All, 3, TRUE)
CfgD == Cfg("d", {"code"}, 1, FALSE)

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
