-------------------------------- MODULE IdToken --------------------------------
(* What ID tokens say (C16): wherever an ID token comes out - the authorization endpoint, the
   token endpoint, a refresh - it speaks of the authorization it belongs to and of nothing else. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, MaxTime, Slots, Rts, Nonces, Acrs, Agos, Asks
VARIABLES cfg, now, slot, last
vars == <<cfg, now, slot>>

Users == {"u1", "u2"}       \* the attributes of u2 have names of protocol claims
Clients == {"c1", "c2"}
None == [st |-> "none"]

\* the algorithm in force: the client's, or the default if it is supported, or the first supported
Alg(c) == IF cfg.alg[c] # "-" THEN cfg.alg[c]
          ELSE IF \E j \in 1..Len(cfg.supported) : cfg.supported[j] = "RS256" THEN "RS256" ELSE cfg.supported[1]

Code(rt) == rt \in {"code", "ci", "cit", "ct"}
Front(rt) == rt \in {"id", "it", "ci", "cit"}
Access(rt) == rt \in {"it", "cit", "ct"}

Says(s, front) == [c |-> s.c, u |-> s.u, nonce |-> s.nonce, at |-> s.at, acr |-> s.acr, alg |-> Alg(s.c),
                   iat |-> now, exp |-> now + cfg.life,
                   ch |-> front /\ Code(s.rt), ah |-> front /\ Access(s.rt)]

Init == cfg \in Configs /\ now = 0 /\ slot = [i \in Slots |-> None] /\ last = [a |-> "init"]

\* u logged in `ago' before now with context class acr
Auth(i, u, c, rt, n, acr, ago, ask) ==
  /\ slot[i].st = "none"
  /\ n = "-" => rt \in {"code", "ct"}
  /\ ago <= now
  /\ LET s == [st |-> IF Code(rt) THEN "code" ELSE "done", u |-> u, c |-> c, rt |-> rt, nonce |-> n, acr |-> acr, at |-> now - ago, ask |-> ask]
     IN /\ slot' = [slot EXCEPT ![i] = s]
        /\ last' = [a |-> "auth", i |-> i, u |-> u, c |-> c, rt |-> rt, nonce |-> n, acr |-> acr, ago |-> ago, ask |-> ask,
                    says |-> IF Front(rt) THEN <<Says(s, TRUE)>> ELSE <<>>]
  /\ UNCHANGED <<cfg, now>>
Redeem(i) ==
  /\ slot[i].st = "code"
  /\ slot' = [slot EXCEPT ![i].st = "rt"]
  /\ last' = [a |-> "redeem", i |-> i, says |-> <<Says(slot[i], FALSE)>>]
  /\ UNCHANGED <<cfg, now>>
Refresh(i) ==
  /\ slot[i].st = "rt"
  /\ last' = [a |-> "refresh", i |-> i, says |-> <<Says(slot[i], FALSE)>>]
  /\ UNCHANGED vars
Forget(i) ==
  /\ slot[i].st # "none"
  /\ slot' = [slot EXCEPT ![i] = None] /\ last' = [a |-> "forget", i |-> i] /\ UNCHANGED <<cfg, now>>
Tick == now < MaxTime /\ now' = now + 1 /\ last' = [a |-> "tick"] /\ UNCHANGED <<cfg, slot>>
Reload == (\E i \in Slots : slot[i].st = "rt") /\ last' = [a |-> "reload"] /\ UNCHANGED vars

Next ==
  \/ \E i \in Slots, u \in Users, c \in Clients, rt \in Rts, n \in Nonces, acr \in Acrs, ago \in Agos, ask \in Asks :
       (u = "u1" => ask = "none") /\ Auth(i, u, c, rt, n, acr, ago, ask)
  \/ \E i \in Slots : Redeem(i) \/ Refresh(i) \/ Forget(i)
  \/ Tick \/ Reload

---------------------------------------------------------------------------
TypeOK == now \in 0..MaxTime /\ \A i \in Slots : slot[i].st \in {"none", "code", "rt", "done"}
Said == last'.a \in {"auth", "redeem", "refresh"} /\ last'.says # <<>>
\* C16
Who == [][Said => LET t == last'.says[1] s == slot'[last'.i] IN t.c = s.c /\ t.u = s.u]_<<vars, last>>
Answer == [][Said => LET t == last'.says[1] s == slot'[last'.i] IN t.nonce = s.nonce /\ t.acr = s.acr /\ t.at = s.at]_<<vars, last>>
Lifetime == [][Said => last'.says[1].iat = now /\ last'.says[1].exp = now + cfg.life]_<<vars, last>>
\* the time of authentication never moves
SameLogin == [][\A i \in Slots : (slot[i].st # "none" /\ slot'[i].st # "none") => slot'[i].at = slot[i].at]_<<vars, last>>
Hashes == [][(Said /\ last'.a = "auth") => (last'.says[1].ch <=> Code(last'.rt)) /\ (last'.says[1].ah <=> Access(last'.rt))]_<<vars, last>>

Cfg(n, a1, a2, sup, l, lo) == [name |-> n, alg |-> [c1 |-> a1, c2 |-> a2], supported |-> sup, life |-> l, logout |-> lo]
CfgA == Cfg("a", "RS256", "ES256", <<"RS256", "ES256">>, 1, FALSE)
CfgB == Cfg("b", "-", "RS384", <<"RS256", "RS384", "ES256">>, 2, TRUE)
CfgC == Cfg("c", "-", "RS512", <<"ES256", "RS512">>, 3, FALSE)
CfgD == Cfg("d", "PS256", "-", <<"PS256", "ES256", "RS256">>, 1, TRUE)
CfgE == Cfg("e", "HS256", "HS512", <<"RS256", "HS256", "HS512">>, 2, FALSE)
CfgF == Cfg("f", "HS384", "-", <<"ES256", "HS384">>, 1, TRUE)

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
