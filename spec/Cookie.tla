-------------------------------- MODULE Cookie --------------------------------
(* Cookies (C18).  A cookie is a tuple of fields; protection is symbolic: a field that
   authenticates or encrypts is known by the cookie it was made for, and nobody can make
   one without the key.  Values and types are strings over an alphabet that contains all
   characters the encoding treats specially.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, Contents, MaxCookies, Mutations, MaxChanged, Shapes
VARIABLES cfg, cookies, last
vars == <<cfg, cookies>>

(* cfg.mode: "sign" | "signenc" | "enc".  Keys: "own", and "alien" (another server's) *)
NFields == IF cfg.mode = "sign" THEN 3 ELSE 4
Init == cfg \in Configs /\ cookies = <<>> /\ last = [a |-> "init"]

Make(k, c, ts, n) ==
  /\ Len(cookies) < MaxCookies
  /\ cookies' = Append(cookies, [k |-> k, c |-> c, ts |-> ts, n |-> n])
  /\ last' = [a |-> "make", k |-> k, v |-> c.v, t |-> c.t, ts |-> ts, n |-> n]
  /\ UNCHANGED cfg

(* a string put together from fields: field i is taken from cookie f[i].src and altered in
   the way f[i].mut; shape says whether fields are exchanged, missing or added            *)
Genuine(f, shape) ==
  /\ shape = "plain"
  /\ \A i \in DOMAIN f : f[i].mut = "none" /\ f[i].src = f[1].src
(* what the server may say to such a string: the content of a cookie it made, unchanged, or
   nothing.  A genuine cookie must be accepted (under the name it is looked for).         *)
Present(f, shape, n) ==
  LET s == f[1].src
      g == Genuine(f, shape) /\ cookies[s].k = "own"
      \* contents that may come out: only if every field the protection covers is of one own cookie
      cover == IF cfg.mode = "sign" THEN DOMAIN f ELSE DOMAIN f \ {1}
      one == \E j \in DOMAIN cookies : cookies[j].k = "own" /\ \A i \in cover : f[i].src = j
      ok == g /\ cookies[s].n = n
      may == ~ok /\ one /\ shape = "plain" /\ cookies[f[2].src].n = n
  IN /\ last' = [a |-> "present", f |-> f, shape |-> shape, n |-> n,
                 res |-> IF ok THEN "must" ELSE IF may THEN "may" ELSE "no", src |-> f[2].src]
     /\ UNCHANGED vars

Srcs == DOMAIN cookies
Fields == [src : Srcs, mut : Mutations]
Changed(f, s) == Cardinality({i \in DOMAIN f : f[i] # [src |-> s, mut |-> "none"]})
Next ==
  \/ \E k \in {"own", "alien"}, c \in Contents, ts \in 1..2, n \in {"session", "register"} :
       /\ (cookies = <<>> => k = "own" /\ n = "session" /\ ts = 1)
       /\ Make(k, c, ts, n)
  \/ /\ cookies # <<>>
     /\ \E f \in [1..NFields -> Fields], sh \in Shapes, n \in {"session", "register"} :
          /\ \E s \in Srcs : Changed(f, s) <= MaxChanged
          /\ sh # "plain" => \A i \in DOMAIN f : f[i].mut = "none"
          /\ Present(f, sh, n)

---------------------------------------------------------------------------
TypeOK == \A i \in DOMAIN cookies : cookies[i].ts \in 1..2
(* C18: whatever is accepted was made by this server, as it was made, from one cookie *)
NoForgery == [][(last'.a = "present" /\ last'.res # "no") =>
                 /\ cookies[last'.src].k = "own"
                 /\ \A i \in 2..NFields : last'.f[i].src = last'.src]_<<vars, last>>
RoundTrip == [][(last'.a = "present" /\ Genuine(last'.f, last'.shape) /\ cookies[last'.src].k = "own"
                 /\ cookies[last'.src].n = last'.n) => last'.res = "must"]_<<vars, last>>

Cfg(m, s) == [name |-> m \o "/" \o s, mode |-> m, style |-> s]
Modes == {"sign", "signenc", "enc"}
AllCfgs == {Cfg(m, s) : m \in Modes, s \in {"text", "symkey", "keys"}}
SomeCfgs == {Cfg(m, "text") : m \in Modes}

Alphabet == {"a", ":", "::", "|", "%", "%3A", "%253A", " ", "+", "/", ",", ";", "=", "q", "1:", "U", "J"}
Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
TripContents(n, m) == {[v |-> v, t |-> t] : v \in Strings(n), t \in Strings(m)}
\* contents that are likely to be confused with each other
MixContents == {[v |-> <<"a">>, t |-> <<"q">>], [v |-> <<"a", "::", "q">>, t |-> <<>>], [v |-> <<>>, t |-> <<"a">>],
                [v |-> <<"a">>, t |-> <<>>], [v |-> <<"a", "|", "1:">>, t |-> <<"q">>], [v |-> <<"J">>, t |-> <<"q">>]}

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
