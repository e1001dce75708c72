-------------------------------- MODULE Pkce --------------------------------
(* Proof key for code exchange (C11).

   A string is a sequence <<seed, transform, ...>>: a seed string to which transforms
   were applied; "plain" is the identity.  All transforms are injective and never
   yield a seed again (collision freedom of the hash functions is an assumption).  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, MaxCodes, Seeds, Rich
VARIABLES cfg, codes, last
vars == <<cfg, codes>>

Clients == DOMAIN cfg.essential
Hashes == {"S256", "S384", "S512"}
Known == Hashes \cup {"plain"}
T(m, s) == IF m = "plain" THEN s ELSE Append(s, m)

\* declared method as it counts
Declared(d) == IF d = "" THEN "plain" ELSE d
None == <<>>
Challenges == {<<s>> : s \in Seeds} \cup {<<s, h>> : s \in Seeds, h \in (IF Rich THEN Hashes ELSE {"S256"})}
Decls == IF Rich THEN {"", "plain", "S256", "S384", "S512", "bogus", "s256", "Plain", "S256 "} ELSE {"", "S256"}
\* what clients present as verifier: seeds, the strings they sent as challenge (someone who only saw the
\* authorization request has just that), and "~": something close to the right one
Verifiers == {None} \cup {<<s>> : s \in Seeds} \cup {<<s, h>> : s \in Seeds, h \in (IF Rich THEN Hashes ELSE {"S256"})}
             \cup {<<s, "~">> : s \in Seeds}

Essential(c) == IF cfg.essential[c] = "unset" THEN cfg.server = TRUE ELSE cfg.essential[c] = "yes"

\* has this authorization request to be accepted?
Allowed(c, ch, d) == IF ch = None THEN ~Essential(c) ELSE Declared(d) \in cfg.methods

Init == cfg \in Configs /\ codes = <<>> /\ last = [a |-> "init"]

Authorize(c, via, ch, d) ==
  /\ Len(codes) < MaxCodes
  /\ ch = None => d \in {"", "S256", "bogus"}
  /\ IF Allowed(c, ch, d)
     THEN codes' = Append(codes, [c |-> c, ch |-> ch, m |-> IF ch = None THEN "" ELSE Declared(d), st |-> "fresh"])
     ELSE codes' = codes
  /\ last' = [a |-> "authorize", c |-> c, via |-> via, ch |-> ch, d |-> d, ok |-> Allowed(c, ch, d),
              may |-> (ch = None /\ d # "")]
  /\ UNCHANGED cfg

Proves(k, ver) == IF k.ch = None THEN TRUE ELSE ver # None /\ T(k.m, ver) = k.ch
\* extra: what else the token request carries: "method"/"challenge" - the parameters of an authorization request
Extras == {"", "method", "challenge"}
Redeem(i, ver, extra) ==
  /\ i \in DOMAIN codes
  /\ LET k == codes[i]
         ok == k.st \notin {"used", "replayed"} /\ Proves(k, ver)
     IN /\ codes' = [codes EXCEPT ![i].st = IF ok THEN "used" ELSE IF @ = "fresh" THEN "tried" ELSE IF @ = "used" THEN "replayed" ELSE @]
        /\ last' = [a |-> "redeem", i |-> i, ver |-> ver, extra |-> extra, st |-> k.st, ch |-> k.ch, m |-> k.m, c |-> k.c,
                    verdict |-> IF ~ok THEN "no" ELSE IF k.st = "tried" \/ extra # "" \/ (k.ch = None /\ ver # None) THEN "may" ELSE "must"]
  /\ UNCHANGED cfg

\* the refresh token of a redeemed code needs no verifier
Refresh(i) ==
  /\ i \in DOMAIN codes /\ codes[i].st = "used" /\ cfg.refresh
  /\ last' = [a |-> "refresh", i |-> i]
  /\ UNCHANGED vars

Reload == /\ codes # <<>> /\ last' = [a |-> "reload"] /\ UNCHANGED vars

Next ==
  \/ \E c \in Clients, via \in {"plain", "par"}, ch \in Challenges \cup {None}, d \in Decls : Authorize(c, via, ch, d)
  \/ \E i \in DOMAIN codes, v \in Verifiers, x \in Extras : Redeem(i, v, x)
  \/ \E i \in DOMAIN codes : Refresh(i)
  \/ Reload

---------------------------------------------------------------------------
TypeOK == \A i \in DOMAIN codes : codes[i].st \in {"fresh", "tried", "used", "replayed"}
\* C11
EssentialAsks == \A i \in DOMAIN codes : codes[i].ch = None => ~Essential(codes[i].c)
MethodEnabled == \A i \in DOMAIN codes : codes[i].ch # None => codes[i].m \in cfg.methods
NeedsVerifier == [][(last'.a = "redeem" /\ last'.verdict # "no" /\ last'.ch # None) =>
                     (last'.ver # None /\ T(last'.m, last'.ver) = last'.ch)]_<<vars, last>>
\* who only knows the challenge gets nowhere, unless the method is plain
ChallengeIsNoProof == [][(last'.a = "redeem" /\ last'.ch # None /\ last'.ver = last'.ch /\ last'.m # "plain") =>
                          last'.verdict = "no"]_<<vars, last>>
Once == [][(last'.a = "redeem" /\ last'.st \in {"used", "replayed"}) => last'.verdict = "no"]_<<vars, last>>

---------------------------------------------------------------------------
Cfg(n, fl, srv, ms, e1, e2) == [name |-> n, flavour |-> fl, server |-> srv, methods |-> ms, essential |-> [c1 |-> e1, c2 |-> e2],
                                refresh |-> fl = "oidc"]
CfgAll == Cfg("all", "oidc", TRUE, Known, "unset", "no")
CfgAllO == Cfg("allo", "oauth2", FALSE, Known, "unset", "yes")
CfgS == Cfg("s256", "oidc", FALSE, {"S256"}, "yes", "unset")
CfgSO == Cfg("s256o", "oauth2", TRUE, {"S256", "S512"}, "no", "unset")
CfgPl == Cfg("plain", "oidc", TRUE, {"plain", "S384"}, "yes", "no")

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
