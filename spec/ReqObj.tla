------------------------------- MODULE ReqObj -------------------------------
(* Request objects, by value and by reference (C26).

   An object says who signed it with what, under which algorithm, what its issuer and
   client_id members say, and which of the parameters differ from those outside.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, MaxFlaws
VARIABLES cfg, last
vars == <<cfg>>

Clients == DOMAIN cfg.client
Others(c) == Clients \ {c}
\* own: a registered key of the client, fitting the algorithm; other: one of another client; srv: the server's;
\* fresh: an unknown key with the identifier of the client's key; pub: HMAC keyed with the public key;
\* broken: the client's signature over something else; none: alg none; json: not even a JWT
Signers == {"own", "other", "srv", "fresh", "pub", "broken", "none", "json"}
Algs == {"RS256", "ES256", "HS256", "RS512"}
AlgOf(s, a) == IF s = "pub" THEN "HS256" ELSE IF s \in {"none", "json"} THEN "none" ELSE a
Ids == {"absent", "own", "other", "junk"}
Inner == {"good", "otheruri", "baduri", "badrt", "rt"}   \* what is inside: also another registered URI, an unregistered one ...
Refs == {"value", "registered", "regfrag", "unregistered", "longer", "query"}

Allowed(c) == IF cfg.client[c].alg # "" THEN {cfg.client[c].alg} ELSE cfg.algs
\* references of clients that registered none are taken as they are
RefOk(c, r) == r \in {"value", "registered", "regfrag"} \/ ~cfg.client[c].refs
Authentic(c, o) == /\ o.signer = "own" /\ o.alg \in Allowed(c)
                   /\ o.iss \in {"absent", "own"} /\ o.cid \in {"absent", "own"}
                   /\ RefOk(c, o.ref)
Fine(o) == o.inner \in {"good", "otheruri", "rt"}
\* "must": processed with what is inside; "may": that, or refused; "no": what is inside is not used
Verdict(c, o) ==
  IF ~Authentic(c, o) THEN "no"
  ELSE IF ~Fine(o) THEN "refuse"
  ELSE IF o.iss = "own" /\ o.cid = "own" /\ o.inner = "good" /\ o.ref # "regfrag" /\ o.outer = "same" THEN "must" ELSE "may"

Flaw(b) == IF b THEN 1 ELSE 0
Flaws(c, o) == Flaw(o.signer # "own") + Flaw(o.signer = "own" /\ o.alg \notin Allowed(c)) + Flaw(o.iss # "own") + Flaw(o.cid # "own")
               + Flaw(~RefOk(c, o.ref)) + Flaw(o.inner # "good") + Flaw(o.outer # "same")

Init == cfg \in Configs /\ last = [a |-> "init"]

\* outer: the parameters beside the object are the same, differ (state, scope, nonce), or name an unregistered
\* redirect URI or response type
Ask(c, o) ==
  /\ Flaws(c, o) <= MaxFlaws
  /\ o.signer \in {"none", "json", "pub"} => o.alg = "RS256"
  /\ o.ref = "value" => cfg.flavour = "oidc"
  /\ last' = [a |-> "ask", c |-> c, o |-> o, alg |-> AlgOf(o.signer, o.alg), verdict |-> Verdict(c, o)]
  /\ UNCHANGED vars

\* the server's state is dumped and loaded into a fresh server
Reload == last' = [a |-> "reload"] /\ UNCHANGED vars

Asks == \E c \in Clients, s \in Signers, a \in Algs, i \in Ids, ci \in Ids, inn \in Inner, r \in Refs,
           ou \in {"same", "differ", "baduri", "badrt"} :
  Ask(c, [signer |-> s, alg |-> a, iss |-> i, cid |-> ci, inner |-> inn, ref |-> r, outer |-> ou])
Next == Asks \/ Reload

---------------------------------------------------------------------------
\* C26
OnlyOwnKey == [][(last'.a = "ask" /\ last'.verdict \in {"must", "may"}) =>
                  (last'.o.signer = "own" /\ last'.alg \in Allowed(last'.c) /\ RefOk(last'.c, last'.o.ref))]_<<vars, last>>
StillChecked == [][(last'.a = "ask" /\ last'.o.inner \in {"baduri", "badrt"}) => last'.verdict \in {"no", "refuse"}]_<<vars, last>>
NotForOthers == [][(last'.a = "ask" /\ (last'.o.iss = "other" \/ last'.o.cid = "other")) => last'.verdict = "no"]_<<vars, last>>

Cl(a, r) == [alg |-> a, refs |-> r]
Cfg(n, fl, as, c1, c2) == [name |-> n, flavour |-> fl, algs |-> as, client |-> [c1 |-> c1, c2 |-> c2]]
CfgA == Cfg("a", "oidc", {"RS256", "ES256"}, Cl("", TRUE), Cl("ES256", TRUE))
CfgB == Cfg("b", "oidc", {"RS256", "ES256", "HS256", "RS512"}, Cl("HS256", FALSE), Cl("", TRUE))
CfgC == Cfg("c", "oauth2", {"RS256", "HS256"}, Cl("", TRUE), Cl("RS512", FALSE))

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
