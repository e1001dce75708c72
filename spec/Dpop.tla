--------------------------------- MODULE Dpop ---------------------------------
(* DPoP at the token endpoint (C23): which proofs are good, and to which key the access token is bound. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, Slots, MaxTok, Proofs
VARIABLES cfg, slot, toks, last
vars == <<cfg, slot, toks>>

(* A proof: k the key named in the header, s who signed it, alg, typ, htu (address), htm (method),
   hdr/body what else header and body carry. *)
KeyType(k) == IF k \in {"r1", "r2"} THEN "RSA" ELSE "EC"
Signed(p) == p.s = "own"
AlgOk(p) == p.alg \in cfg.algs
Contradicted(p) == p.body \in {"jwk", "typ", "alg"}
(* "no": must issue nothing.  "may": well made but with something the statement is silent about; if it
   is served, the token is bound to k all the same. *)
Verdict(p) ==
  IF ~(Signed(p) /\ AlgOk(p) /\ p.typ = "dpop+jwt" /\ p.htu = "exact" /\ p.htm = "POST" /\ p.hdr # "nojwk") THEN "no"
  ELSE IF Contradicted(p) \/ p.body \in {"nojti", "noiat", "old"} \/ p.hdr \in {"private", "both"} THEN "may"
  ELSE "yes"

None == [st |-> "none", key |-> ""]
Init == /\ cfg \in Configs /\ slot = [i \in Slots |-> None] /\ toks = <<>> /\ last = [a |-> "init"]

Auth(i) == /\ slot[i].st = "none" /\ slot' = [slot EXCEPT ![i] = [st |-> "code", key |-> ""]]
           /\ last' = [a |-> "auth", i |-> i] /\ UNCHANGED <<cfg, toks>>
\* how the proof is presented: param adds the thumbprint of another key to the token request
Hows == {"plain", "param", "string"}
Ask(i, p, how) ==
  LET v == Verdict(p) IN
  /\ slot[i].st \in {"code", "rt"}
  /\ (v # "yes" => how = "plain") \/ p.s = "none"
  /\ (v = "yes" => Len(toks) < MaxTok)
  /\ last' = [a |-> IF slot[i].st = "code" THEN "redeem" ELSE "refresh", i |-> i, p |-> p, v |-> v, how |-> how]
  /\ UNCHANGED cfg
  /\ IF v = "yes"
     THEN slot' = [slot EXCEPT ![i] = [st |-> "rt", key |-> p.k]] /\ toks' = Append(toks, [i |-> i, k |-> p.k])
     \* if a "may" is served after all, the code or token is used up: that grant is over
     ELSE slot' = (IF v = "may" THEN [slot EXCEPT ![i].st = "over"] ELSE slot) /\ UNCHANGED toks
\* the token still names the key it was issued for
Look(n) == last' = [a |-> "look", n |-> n, k |-> toks[n].k] /\ UNCHANGED vars
Reload == (\E i \in Slots : slot[i].st # "none") /\ last' = [a |-> "reload"] /\ UNCHANGED vars

NoProof == [k |-> "e1", s |-> "none", alg |-> "ES256", typ |-> "dpop+jwt", htu |-> "exact", htm |-> "POST", hdr |-> "plain", body |-> "plain"]
Next == \/ \E i \in Slots : Auth(i) \/ \E p \in Proofs, h \in Hows : Ask(i, p, h)
        \/ \E i \in Slots, h \in Hows : Ask(i, NoProof, h)
        \/ \E n \in DOMAIN toks : Look(n)
        \/ Reload

---------------------------------------------------------------------------
TypeOK == Len(toks) <= MaxTok
Asked == last'.a \in {"redeem", "refresh"}
\* C23
Proven == [][(Asked /\ toks' # toks) => /\ last'.p.s = "own" /\ last'.p.typ = "dpop+jwt" /\ last'.p.htu = "exact" /\ last'.p.htm = "POST"
                                       /\ last'.p.alg \in cfg.algs]_<<vars, last>>
Bound == [][(Asked /\ toks' # toks) => toks'[Len(toks')].k = last'.p.k]_<<vars, last>>
NothingElse == [][(Asked /\ last'.v = "no") => UNCHANGED vars]_<<vars, last>>
StaysBound == [][\A n \in DOMAIN toks : toks'[n] = toks[n]]_<<vars, last>>

---------------------------------------------------------------------------
P(k, alg) == [k |-> k, s |-> "own", alg |-> alg, typ |-> "dpop+jwt", htu |-> "exact", htm |-> "POST", hdr |-> "plain", body |-> "plain"]
Algs(k) == IF KeyType(k) = "EC" THEN {"ES256"} ELSE {"RS256", "PS256"}
Keys == {"e1", "e2", "r1"}
Good == UNION {{P(k, a) : a \in Algs(k)} : k \in Keys}
Ss == {"other", "altered", "stripped"}
Typs == {"JWT", "absent", "at+jwt"}
Htus == {"other", "http", "longer", "query", "host", "prefix", "issuer", "absent"}
Htms == {"GET", "post", "absent"}
Hdrs == {"private", "nojwk", "both"}
Bodies == {"jwk", "typ", "alg", "nojti", "noiat", "old"}
Bad(b) == {[b EXCEPT !.s = x] : x \in Ss} \cup {[b EXCEPT !.typ = x] : x \in Typs} \cup {[b EXCEPT !.htu = x] : x \in Htus}
     \cup {[b EXCEPT !.htm = x] : x \in Htms} \cup {[b EXCEPT !.hdr = x] : x \in Hdrs} \cup {[b EXCEPT !.body = x] : x \in Bodies}
     \cup {[b EXCEPT !.alg = x] : x \in {"none", "HSpub", "HSoct", "mixed"}}
Singles == Good \cup UNION {Bad(b) : b \in Good}
\* things that could make up for each other
Pairs == UNION {   {[b EXCEPT !.typ = t, !.body = "typ"] : t \in Typs} \cup {[b EXCEPT !.htu = "absent", !.hdr = "both"], [b EXCEPT !.htm = "absent", !.hdr = "both"],
                    [b EXCEPT !.htu = "other", !.hdr = "both"], [b EXCEPT !.htm = "GET", !.hdr = "both"], [b EXCEPT !.hdr = "nojwk", !.body = "jwk"],
                    [b EXCEPT !.s = "other", !.body = "jwk"], [b EXCEPT !.alg = "none", !.body = "alg"], [b EXCEPT !.alg = "HSoct", !.body = "alg"],
                    [b EXCEPT !.alg = "HSoct", !.body = "jwk"], [b EXCEPT !.s = "other", !.htu = "other"]} : b \in Good}
Many == Singles \cup Pairs
Few == Good \cup UNION {{[b EXCEPT !.s = "other"], [b EXCEPT !.htu = "other"], [b EXCEPT !.body = "jwk"]} : b \in {P("e1", "ES256"), P("r1", "RS256")}}

Cfg(n, f, algs, given) == [name |-> n, flavour |-> f, algs |-> algs, given |-> given]
CfgA == Cfg("a", "oidc", {"ES256"}, TRUE)
CfgB == Cfg("b", "oidc", {"RS256", "ES256"}, TRUE)
CfgC == Cfg("c", "oauth2", {"ES256", "PS256"}, TRUE)
CfgD == Cfg("d", "oauth2", {"RS256"}, FALSE)

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
