----------------------------- MODULE ClientAuth -----------------------------
(* Who is the client that sends a request?  Endpoints that require client
   authentication, the credentials clients may present there, how these go wrong,
   and the identifiers of assertions that were accepted (C07, C08).

   The request either carries a client's own credential (secret in the header or
   the body, assertion) or a bearer token.  `Who` is the client as which the request
   has to be processed, "" if it has to be refused.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, MaxTime, Jtis, MaxFlaws, Acts
VARIABLES cfg, now, seen, last
vars == <<cfg, now, seen>>

Never == 99
Clients == DOMAIN cfg.client
Unknown == "cx"                     \* nobody's identifier
Known(c) == c \in Clients
\* a client's registration (its secret) is good up to and including its expiry
Fresh(c) == now <= cfg.client[c].eta

---------------------------------------------------------------------------
(* Credentials.  quality of a secret: "own" or one of several ways to be wrong.
   key of an assertion:
     sec    the issuer's client secret            prv    the issuer's registered key
     osec   another client's secret               oprv   another client's key
     pub    HMAC keyed with the public key        srv    the server's own key
     no     no signature (alg none)               fresh  a new key with the issuer's key id       *)
SecretFlaws == {"other", "prefix", "longer", "empty", "case"}
KeyFlaws == {"osec", "oprv", "pub", "srv", "no", "fresh"}
AudFlaws == {"other", "issuer", "longer", "junk", "missing"}
Endpoints == {"token", "introspection", "pushed_authorization"}
BearerEndpoints == {"userinfo", "registration_read"}

Plain(m) == {[m |-> m, id |-> c, q |-> q] : c \in Clients \cup {Unknown}, q \in {"own"} \cup SecretFlaws}
Assertions ==
  {[m |-> "jwt", id |-> c, key |-> k, aud |-> a, jti |-> j, exp |-> e] :
     c \in Clients \cup {Unknown}, k \in {"sec", "prv"} \cup KeyFlaws, a \in {"this", "both"} \cup AudFlaws,
     j \in {"none"} \cup Jtis, e \in {0, Never}}

Flaw(b) == IF b THEN 1 ELSE 0
Flaws(p) ==
  CASE p.m \in {"basic", "post"} -> Flaw(p.id = Unknown) + Flaw(p.q # "own")
    [] p.m = "jwt" -> Flaw(p.id = Unknown) + Flaw(p.key \in KeyFlaws) + Flaw(p.aud \in AudFlaws) + Flaw(p.exp = 0)
    [] OTHER -> 0

\* what can exist at all
Possible(p) ==
  IF p.id = Unknown \/ p.m = "none" THEN TRUE
  ELSE IF p.m = "jwt" THEN /\ (p.key = "sec" => cfg.client[p.id].sec)
                           /\ (p.key \in {"prv", "pub"} => cfg.client[p.id].prv)
  ELSE cfg.client[p.id].sec \/ p.q \in {"other", "empty"}

Enabled(ep, m) == m \in cfg.methods[ep]

(* Is this credential, at this endpoint, now, good for client p.id?          *)
Valid(ep, p) ==
  CASE p.m = "basic" -> Enabled(ep, "client_secret_basic") /\ Known(p.id) /\ p.q = "own" /\ cfg.client[p.id].sec
    [] p.m = "post" -> Enabled(ep, "client_secret_post") /\ Known(p.id) /\ p.q = "own" /\ cfg.client[p.id].sec
    [] p.m = "jwt" -> /\ Known(p.id)
                      /\ \/ p.key = "sec" /\ Enabled(ep, "client_secret_jwt")
                         \/ p.key = "prv" /\ Enabled(ep, "private_key_jwt")
                      /\ p.aud \in {"this", "both"}
                      /\ now <= p.exp
                      /\ p.jti = "none" \/ <<p.id, p.jti>> \notin seen
    [] OTHER -> FALSE
Who(ep, p) == IF Valid(ep, p) /\ Fresh(p.id) THEN p.id ELSE ""

Init == /\ cfg \in Configs /\ now = 0 /\ seen = {} /\ last = [a |-> "init"]

\* a request with one credential; claim: the client_id in the body ("" = none)
Ask(ep, p, claim) ==
  /\ "ask" \in Acts
  /\ Possible(p) = TRUE /\ Flaws(p) <= MaxFlaws
  /\ p.m = "post" => claim = p.id
  /\ p.m = "none" => claim # ""
  /\ LET w == Who(ep, p) IN
     /\ seen' = IF w # "" /\ p.m = "jwt" /\ p.jti # "none" THEN seen \cup {<<w, p.jti>>} ELSE seen
     /\ last' = [a |-> "ask", ep |-> ep, p |-> p, claim |-> claim, who |-> w,
                 why |-> IF w # "" THEN "ok" ELSE IF p.m = "jwt" /\ <<p.id, p.jti>> \in seen THEN "seen"
                         ELSE IF Valid(ep, p) THEN "late" ELSE "bad"]
  /\ UNCHANGED <<cfg, now>>

\* two credentials at once, only the second one may be good: never anybody but its owner
AskTwo(ep, p1, p2) ==
  /\ "two" \in Acts
  /\ p1.m = "basic" /\ p2.m = "post" /\ Possible(p1) = TRUE /\ Possible(p2) = TRUE
  /\ p1.id # p2.id \/ p1.q # p2.q
  /\ LET ws == {Who(ep, p1), Who(ep, p2)} \ {""} IN
     last' = [a |-> "two", ep |-> ep, p |-> p1, p2 |-> p2, may |-> ws, why |-> ""]
  /\ UNCHANGED vars

\* a bearer token: live/revoked access token of owner, a refresh token, a made up string
Bearer(ep, m, tok, owner, claim) ==
  /\ "bearer" \in Acts
  /\ owner # claim \/ owner # Unknown
  /\ ep = "registration_read" => tok \in {"live", "junk"} /\ m = "bearer_header"
  /\ last' = [a |-> "bearer", ep |-> ep, m |-> m, tok |-> tok, owner |-> owner, claim |-> claim,
              \* "?": whether it is served is not said, but if so then as the owner
              who |-> IF ~Enabled(ep, m) \/ tok # "live" THEN ""
                      ELSE IF claim = owner THEN owner
                      ELSE IF ep = "registration_read" THEN (IF claim = "" THEN "?" ELSE "")
                      ELSE IF claim = "" THEN owner
                      ELSE IF m = "bearer_header" THEN "?" ELSE "",
              why |-> ""]
  /\ UNCHANGED vars

Tick == /\ now < MaxTime /\ now' = now + 1 /\ last' = [a |-> "tick"] /\ UNCHANGED <<cfg, seen>>
Reload == "reload" \in Acts /\ last' = [a |-> "reload"] /\ UNCHANGED vars

Claims == {""} \cup cfg.claims
Next ==
  \/ \E ep \in Endpoints \cap DOMAIN cfg.methods :
       \/ \E p \in Plain("basic") \cup Assertions, cl \in Claims : Ask(ep, p, cl)
       \/ \E p \in Plain("post") : Ask(ep, p, p.id)
       \/ \E cl \in Clients : Ask(ep, [m |-> "none", id |-> cl], cl)
       \/ \E p1 \in Plain("basic"), p2 \in Plain("post") : AskTwo(ep, p1, p2)
  \/ \E ep \in BearerEndpoints \cap DOMAIN cfg.methods, m \in {"bearer_header", "bearer_body"},
        tok \in {"live", "revoked", "refresh", "junk"}, o \in cfg.owners, cl \in Claims : Bearer(ep, m, tok, o, cl)
  \/ Tick
  \/ Reload

---------------------------------------------------------------------------
\* C07: nobody is ever taken for a client whose own, current credential is not in the request
OnlyWithCredential ==
  [][(last'.a = "ask" /\ last'.who # "") =>
       LET p == last'.p IN
       /\ p.id = last'.who /\ p.id \in Clients /\ now <= cfg.client[p.id].eta
       /\ p.m = "jwt" => /\ p.key \in {"sec", "prv"} /\ p.aud \in {"this", "both"} /\ now <= p.exp
       /\ p.m \in {"basic", "post"} => p.q = "own"]_<<vars, last>>
\* C08
OnceOnly == [][(last'.a = "ask" /\ last'.who # "" /\ last'.p.m = "jwt" /\ last'.p.jti # "none") =>
                 <<last'.who, last'.p.jti>> \notin seen]_<<vars, last>>
SeenStays == [][seen \subseteq seen']_vars
RejectedDoesNotBurn == [][(last'.a = "ask" /\ last'.who = "") => seen' = seen]_<<vars, last>>
TypeOK == seen \subseteq (Clients \X Jtis)

---------------------------------------------------------------------------
AllM == {"client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"}
Cl(s, p, e) == [sec |-> s, prv |-> p, eta |-> e]
CfgAll == [name |-> "all", claims |-> {"c2", Unknown}, owners |-> {"c1"},
           methods |-> [token |-> AllM, introspection |-> AllM, pushed_authorization |-> AllM],
           client |-> [c1 |-> Cl(TRUE, TRUE, Never), c2 |-> Cl(TRUE, FALSE, 0), pk |-> Cl(FALSE, TRUE, Never)]]
CfgSplit == [name |-> "split", claims |-> {"c2"}, owners |-> {"c1"},
           methods |-> [token |-> {"private_key_jwt", "client_secret_basic"}, introspection |-> {"client_secret_jwt", "client_secret_post"},
                        pushed_authorization |-> {"private_key_jwt"}],
           client |-> [c1 |-> Cl(TRUE, TRUE, Never), c2 |-> Cl(TRUE, TRUE, 0)]]
CfgSplit2 == [name |-> "split2", claims |-> {"c2"}, owners |-> {"c1"},
           methods |-> [token |-> {"client_secret_jwt"}, introspection |-> {"client_secret_basic"}, pushed_authorization |-> {"client_secret_post"}],
           client |-> [c1 |-> Cl(TRUE, TRUE, Never), c2 |-> Cl(TRUE, TRUE, 1)]]
\* c1 and c11: identifiers that are prefixes of each other
CfgJti == [name |-> "jti", claims |-> {}, owners |-> {},
           methods |-> [token |-> AllM, introspection |-> AllM, pushed_authorization |-> AllM],
           client |-> [c1 |-> Cl(TRUE, TRUE, Never), c11 |-> Cl(TRUE, TRUE, Never)]]
CfgBearer == [name |-> "bearer", claims |-> {"c1", "c2"}, owners |-> {"c1", "c2"},
           methods |-> [userinfo |-> {"bearer_header", "bearer_body"}, registration_read |-> {"bearer_header"}],
           client |-> [c1 |-> Cl(TRUE, TRUE, Never), c2 |-> Cl(TRUE, TRUE, Never)]]
CfgBearer2 == [CfgBearer EXCEPT !.name = "bearer2", !.methods.userinfo = {"bearer_header"}]

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> now']))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
