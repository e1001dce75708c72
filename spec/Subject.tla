-------------------------------- MODULE Subject --------------------------------
(* Subject identifiers (C14) as symbolic terms: which two authorizations share one. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, MaxA, MaxTime, Clients
VARIABLES cfg, now, auths, eph, last
vars == <<cfg, now, auths, eph>>

Users == {"u1", "u2"}
Idx == DOMAIN auths
Type(c) == cfg.cl[c].type
Term(u, c, n) == CASE Type(c) = "public"    -> <<"public", u>>
                   [] Type(c) = "pairwise"  -> <<"pairwise", u, cfg.cl[c].sector>>
                   [] Type(c) = "ephemeral" -> <<"ephemeral", n>>
Init == cfg \in Configs /\ now = 0 /\ auths = <<>> /\ eph = 0 /\ last = [a |-> "init"]

Add(u, c, how, i) ==
  LET n == IF Type(c) = "ephemeral" THEN eph + 1 ELSE eph IN
  /\ Len(auths) < MaxA
  /\ auths' = Append(auths, [u |-> u, c |-> c, sub |-> Term(u, c, n), st |-> "new"])
  /\ eph' = n
  /\ last' = [a |-> how, i |-> i, u |-> u, c |-> c, sub |-> ToString(Term(u, c, n))]
  /\ UNCHANGED <<cfg, now>>
Login(u, c) == Add(u, c, "login", 0)
\* a further authorization for the same client, on the strength of the login of the i-th
Sso(i) == Add(auths[i].u, auths[i].c, "sso", i)
\* the request of the i-th once more: no new authorization
Again(i) == /\ last' = [a |-> "again", i |-> i, sub |-> ToString(auths[i].sub)] /\ UNCHANGED vars
\* everything that names the subject of the i-th: tokens, userinfo, introspection
Look(i) == /\ auths' = [auths EXCEPT ![i].st = "seen"]
           /\ last' = [a |-> "look", i |-> i, sub |-> ToString(auths[i].sub)] /\ UNCHANGED <<cfg, now, eph>>
Refresh(i) == /\ auths[i].st = "seen"
              /\ last' = [a |-> "refresh", i |-> i, sub |-> ToString(auths[i].sub)] /\ UNCHANGED vars
Tick == now < MaxTime /\ now' = now + 1 /\ last' = [a |-> "tick"] /\ UNCHANGED <<cfg, auths, eph>>
Reload == auths # <<>> /\ last' = [a |-> "reload"] /\ UNCHANGED vars

Next == \/ \E u \in Users, c \in Clients : Login(u, c)
        \/ \E i \in Idx : Sso(i) \/ Again(i) \/ Look(i) \/ Refresh(i)
        \/ Tick \/ Reload

---------------------------------------------------------------------------
TypeOK == eph \in 0..MaxA
\* C14 on the terms (distinct terms are distinct identifiers)
Stable == \A i, j \in Idx : (auths[i].u = auths[j].u /\ Type(auths[i].c) = "public" /\ Type(auths[j].c) = "public")
            => auths[i].sub = auths[j].sub
SameSector == \A i, j \in Idx : (Type(auths[i].c) = "pairwise" /\ Type(auths[j].c) = "pairwise")
            => ((auths[i].sub = auths[j].sub) <=> (auths[i].u = auths[j].u /\ cfg.cl[auths[i].c].sector = cfg.cl[auths[j].c].sector))
NotShared == \A i, j \in Idx : (auths[i].u # auths[j].u) => auths[i].sub # auths[j].sub
Fresh == \A i, j \in Idx : (i # j /\ Type(auths[i].c) = "ephemeral") => auths[i].sub # auths[j].sub
Unchanging == [][\A i \in Idx : auths'[i].sub = auths[i].sub]_<<vars, last>>

\* sector: the host of the sector identifier URI or, failing that, of the redirect URIs
K(t, s, via) == [type |-> t, sector |-> s, via |-> via]
Cfg(n, f, c1, c2, c3) == [name |-> n, func |-> f, cl |-> [c1 |-> c1, c2 |-> c2, c3 |-> c3]]
CfgA == Cfg("a", "default", K("pairwise", "s1", "uri"), K("pairwise", "s1", "redirect"), K("pairwise", "s2", "redirect"))
CfgB == Cfg("b", "default", K("public", "s1", "redirect"), K("pairwise", "s1", "redirect"), K("ephemeral", "s1", "redirect"))
CfgC == Cfg("c", "class", K("pairwise", "s2", "uri"), K("public", "s1", "redirect"), K("pairwise", "s1", "uri"))
CfgD == Cfg("d", "class", K("public", "s1", "uri"), K("public", "s2", "redirect"), K("ephemeral", "s2", "uri"))
\* user and sector names that run into each other
CfgN == Cfg("concat", "default", K("pairwise", "s1", "redirect"), K("pairwise", "s2", "redirect"), K("public", "s1", "redirect"))

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
