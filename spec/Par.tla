--------------------------------- MODULE Par ---------------------------------
(* Pushed authorization requests (C12).
   A pushed request is one of a few contents; whoever refers to it may send further
   parameters beside the reference, which must not matter.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, MaxRefs, MaxTime, Contents, Beside
VARIABLES cfg, now, refs, last
vars == <<cfg, now, refs>>

Clients == {"c1", "c2"}
Alive(r) == r.st = "live" /\ now < r.at + cfg.life

Init == cfg \in Configs /\ now = 0 /\ refs = <<>> /\ last = [a |-> "init"]

\* auth: does the request prove who the client is?; flaw: "" or what else is wrong with it
Flaws == {"", "uri", "otheruri", "rt", "fragment"}
Push(c, auth, flaw, k) ==
  LET ok == auth = "own" /\ flaw = "" IN
  /\ ok => Len(refs) < MaxRefs
  /\ Len(refs) <= 1 \/ ok
  /\ refs' = IF ok THEN Append(refs, [c |-> c, k |-> k, at |-> now, st |-> "live"]) ELSE refs
  /\ last' = [a |-> "push", c |-> c, auth |-> auth, flaw |-> flaw, k |-> k, ok |-> ok]
  /\ UNCHANGED <<cfg, now>>

\* client c refers to the i-th pushed request
Use(c, i, b) ==
  /\ i \in DOMAIN refs
  /\ LET r == refs[i]
         ok == r.c = c /\ Alive(r)
     IN /\ refs' = IF r.c = c /\ r.st = "live" THEN [refs EXCEPT ![i].st = IF ok THEN "used" ELSE "dead"] ELSE refs
        /\ last' = [a |-> "use", c |-> c, i |-> i, b |-> b, ok |-> ok, k |-> r.k,
                    why |-> IF ok THEN "ok" ELSE IF r.c # c THEN "other" ELSE IF r.st # "live" THEN r.st ELSE "expired"]
  /\ UNCHANGED <<cfg, now>>

\* something that looks like a reference
Fake(c, how) ==
  /\ last' = [a |-> "fake", c |-> c, how |-> how]
  /\ UNCHANGED vars

Tick == now < MaxTime /\ now' = now + 1 /\ last' = [a |-> "tick"] /\ UNCHANGED <<cfg, refs>>
Reload == refs # <<>> /\ last' = [a |-> "reload"] /\ UNCHANGED vars

Next ==
  \/ \E c \in Clients, auth \in {"own", "other", "none", "wrong"}, f \in Flaws, k \in Contents :
       (auth = "own" \/ f = "") /\ Push(c, auth, f, k)
  \/ \E c \in Clients, i \in DOMAIN refs, b \in Beside : Use(c, i, b)
  \/ \E c \in Clients, h \in {"random", "near", "case", "suffix"} : Fake(c, h)
  \/ Tick \/ Reload

---------------------------------------------------------------------------
TypeOK == \A i \in DOMAIN refs : refs[i].st \in {"live", "used", "dead"}
\* C12
OnlyOwner == [][(last'.a = "use" /\ last'.ok) => refs[last'.i].c = last'.c]_<<vars, last>>
OneUse == [][(last'.a = "use" /\ last'.ok) => refs[last'.i].st = "live" /\ refs'[last'.i].st = "used"]_<<vars, last>>
InTime == [][(last'.a = "use" /\ last'.ok) => now < refs[last'.i].at + cfg.life]_<<vars, last>>
DeadStaysDead == [][\A i \in DOMAIN refs : refs[i].st # "live" => refs'[i].st = refs[i].st]_<<vars, last>>
OthersCannotBurn == [][(last'.a = "use" /\ last'.c # refs[last'.i].c) => refs' = refs]_<<vars, last>>

Cfg(n, fl, l) == [name |-> n, flavour |-> fl, life |-> l]
CfgA == Cfg("a", "oidc", 2)
CfgB == Cfg("b", "oauth2", 1)
CfgC == Cfg("c", "oidc", 3)

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
