-------------------------------- MODULE Provider --------------------------------
(* Discovery (C27): what the server announces about itself, as a function of its configuration, and that it behaves
   as announced whatever has happened to it.                                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, MaxN
VARIABLES cfg, hist, last
vars == <<cfg, hist>>

AllEps == {"registration", "registration_read", "authorization", "token", "introspection", "userinfo", "session", "pushed_authorization", "discovery"}
Name(e) == CASE e = "registration" -> "registration_endpoint" [] e = "authorization" -> "authorization_endpoint"
             [] e = "token" -> "token_endpoint" [] e = "introspection" -> "introspection_endpoint"
             [] e = "userinfo" -> "userinfo_endpoint" [] e = "session" -> "end_session_endpoint"
             [] e = "pushed_authorization" -> "pushed_authorization_request_endpoint" [] OTHER -> ""
AuthMethods == {"client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"}
DefaultRT == {"code", "token", "id_token", "code token", "code id_token", "id_token token", "code id_token token"}
AllRT == DefaultRT
SigAlgs == {"RS256", "ES256", "HS256"}        \* of all the algorithms, those tried

On(e) == e \in cfg.eps
\* --------------------------------------------------------------- what has to be announced
WantEps == [n \in {Name(e) : e \in AllEps} \ {""} |-> \E e \in cfg.eps : Name(e) = n]
Dpop == CASE cfg.dpop = "off" -> {} [] cfg.dpop = "default" -> {"RS256"} [] cfg.dpop = "es" -> {"ES256"} [] OTHER -> {"RS256", "ES256"}
IdAlgs == CASE cfg.idalgs = "default" -> SigAlgs [] cfg.idalgs = "es" -> {"ES256"} [] OTHER -> {"RS256", "HS256"}
UiAlgs == CASE cfg.uialgs = "default" -> SigAlgs [] cfg.uialgs = "es" -> {"ES256"} [] OTHER -> {"RS256", "HS256"}
RTs == IF cfg.rts = "default" THEN DefaultRT ELSE IF cfg.rts = "code" THEN {"code"} ELSE {"code", "code id_token"}
Grants == IF cfg.refresh THEN {"authorization_code", "refresh_token"} ELSE {"authorization_code"}
\* whoever deploys the server decides; nothing said: supported
ReqUri == cfg.requri # "no"
Want == [eps |-> WantEps, auth |-> cfg.auth, dpop |-> Dpop, idalgs |-> IdAlgs, uialgs |-> IF On("userinfo") THEN UiAlgs ELSE {}, rts |-> RTs,
         grants |-> Grants, requri |-> ReqUri, acrs |-> cfg.acrs, iframe |-> cfg.iframe # "off" /\ On("session"), logout |-> On("session")]

Init == cfg \in Configs /\ hist = {} /\ last = [a |-> "init"]
Did(x) == hist' = hist \cup {x} /\ UNCHANGED cfg
Room(x) == x \in hist \/ Cardinality(hist) < MaxN

Discover == last' = [a |-> "discover", want |-> Want] /\ Did("discover")
Webfinger == On("discovery") /\ last' = [a |-> "webfinger"] /\ Did("discover")
Keys == last' = [a |-> "keys"] /\ Did("discover")
Auth(m) == last' = [a |-> "auth", m |-> m, ok |-> m \in cfg.auth] /\ Did("flow")
Proof(alg) == last' = [a |-> "proof", alg |-> alg, ok |-> cfg.dpop = "off" \/ alg \in Dpop, bound |-> alg \in Dpop] /\ Did("flow")
\* a whole flow: everything signed names the issuer, is of an announced algorithm and verifies with the published keys
Flow == last' = [a |-> "flow", refresh |-> cfg.refresh, algs |-> IdAlgs] /\ Did("flow")
RequestUri == last' = [a |-> "requri", ok |-> ReqUri] /\ Did("flow")
RegValues == {<<"id_token_signed_response_alg", v>> : v \in SigAlgs} \cup {<<"response_types", v>> : v \in AllRT}
             \cup {<<"userinfo_signed_response_alg", v>> : v \in SigAlgs}
             \cup {<<"token_endpoint_auth_method", v>> : v \in AuthMethods} \cup {<<"grant_types", v>> : v \in {"authorization_code", "refresh_token"}}
Announced(f, v) == CASE f = "id_token_signed_response_alg" -> v \in IdAlgs [] f = "response_types" -> v \in RTs
                     [] f = "userinfo_signed_response_alg" -> On("userinfo") /\ v \in UiAlgs
                     [] f = "token_endpoint_auth_method" -> v \in cfg.auth [] OTHER -> v \in Grants
\* a client registers, asking for one thing: it gets it if it is announced and then it works; if not it does not get it
Register(f, v) == /\ On("registration")
                  /\ (f = "userinfo_signed_response_alg" => On("userinfo"))
                  /\ last' = [a |-> "register", f |-> f, v |-> v, ok |-> Announced(f, v)] /\ Did("register")
\* another server, configured otherwise, starts in the same process; endpoints are used
Another == last' = [a |-> "another"] /\ Did("another")
Reload == last' = [a |-> "reload"] /\ Did("reload")

Next == \/ Room("discover") /\ (Discover \/ Webfinger \/ Keys)
        \/ Room("flow") /\ (Flow \/ RequestUri \/ (\E m \in AuthMethods : Auth(m)) \/ (\E g \in {"RS256", "ES256"} : Proof(g)))
        \/ Room("register") /\ \E r \in RegValues : Register(r[1], r[2])
        \/ Room("another") /\ Another
        \/ Room("reload") /\ Reload

---------------------------------------------------------------------------
TypeOK == cfg.eps \subseteq AllEps /\ cfg.auth \subseteq AuthMethods /\ cfg.auth # {}
\* C27: nothing that is not announced works, everything announced does, and the announcement never changes
AsAnnounced == [][/\ (last'.a = "auth" => (last'.ok <=> last'.m \in Want.auth))
                  /\ (last'.a = "proof" /\ last'.bound => last'.alg \in Want.dpop)
                  /\ (last'.a = "requri" => (last'.ok <=> Want.requri))
                  /\ (last'.a = "flow" => (last'.refresh <=> "refresh_token" \in Want.grants))
                  /\ (last'.a = "discover" => last'.want = Want)
                  /\ Want' = Want]_<<vars, last>>

Cfg(n, eps, auth, refresh, dpop, ida, uia, rts, requri, acrs, iframe, slash) ==
   [name |-> n, eps |-> eps, auth |-> auth, refresh |-> refresh, dpop |-> dpop, idalgs |-> ida, uialgs |-> uia, rts |-> rts, requri |-> requri,
    acrs |-> acrs, iframe |-> iframe, slash |-> slash]
Must == {"authorization", "token"}
CfgA == Cfg("all", AllEps, AuthMethods, TRUE, "default", "default", "default", "default", "yes", {"a1"}, "abs", FALSE)
CfgB == Cfg("few", Must, {"client_secret_post"}, FALSE, "off", "es", "default", "code", "no", {"a1"}, "off", FALSE)
CfgC == Cfg("slash", AllEps \ {"session"}, {"client_secret_basic", "private_key_jwt"}, TRUE, "both", "rs", "es", "hybrid", "unsaid", {"a1", "a2"}, "rel", TRUE)
CfgD == Cfg("nopar", AllEps \ {"pushed_authorization", "userinfo"}, {"client_secret_jwt"}, FALSE, "es", "es", "default", "default", "no", {"a1", "a2"}, "rel", FALSE)
CfgE == Cfg("noreg", AllEps \ {"registration", "registration_read"}, {"client_secret_post", "client_secret_jwt"}, TRUE, "off", "rs", "rs", "hybrid", "yes", {"a2"}, "rel", TRUE)
CfgF == Cfg("reg", Must \cup {"registration", "userinfo", "session"}, {"client_secret_basic", "client_secret_post"}, TRUE, "es", "es", "rs", "code", "unsaid", {"a1"}, "off", FALSE)

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
