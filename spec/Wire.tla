---------------------------------- MODULE Wire ----------------------------------
(* What leaves the server (C29): every endpoint's answer as an HTTP message.  Which form the answer has follows from
   the endpoint, the client's settings and what was asked; what it says is what was decided.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, MaxS, MaxTime
VARIABLES cfg, now, ses, last
vars == <<cfg, now, ses>>

Users == {"u1", "u2"}
C == DOMAIN cfg.ui
Life == 1
\* --------------------------------------------------------------- the forms
RTs == {<<"code">>, <<"code", "id_token">>, <<"code", "token">>, <<"id_token">>}
Modes == {"", "form_post"}
Place(rt, mode) == CASE mode = "form_post" -> "form" [] rt = <<"code">> -> "query" [] OTHER -> "fragment"
\* userinfo: plain JSON, or signed by an algorithm (with the server's key, for HMAC with the client's secret), or encrypted to the client, or both
UiForm(c) == CASE cfg.ui[c] = "plain" -> [sig |-> "", enc |-> FALSE] [] cfg.ui[c] \in {"RS256", "ES256", "HS256"} -> [sig |-> cfg.ui[c], enc |-> FALSE]
               [] cfg.ui[c] = "enc" -> [sig |-> "", enc |-> TRUE] [] OTHER -> [sig |-> "RS256", enc |-> TRUE]
Kinds == {"plain", "clash", "odd"}      \* what is asked for of the user: by scope; attributes with the names of protocol claims; with odd names

Init == cfg \in Configs /\ now = 0 /\ ses = <<>> /\ last = [a |-> "init"]
Live(s) == ses[s].at >= 0 /\ now <= ses[s].at + Life

\* st: the state: "none", or a string with special characters
States == {"none", "text", "odd"}
Authorize(u, c, rt, mode, st, kind) ==
  /\ Len(ses) < MaxS
  /\ last' = [a |-> "authorize", u |-> u, c |-> c, rt |-> rt, mode |-> mode, st |-> st, kind |-> kind, place |-> Place(rt, mode), extra |-> cfg.extra]
  \* only what has a code goes on
  /\ ses' = IF "code" \in {rt[i] : i \in DOMAIN rt} THEN Append(ses, [u |-> u, c |-> c, kind |-> kind, at |-> 0 - 1]) ELSE ses
  /\ UNCHANGED <<cfg, now>>
\* an authorization that is denied: the error goes to the client, and nothing but the error
Deny(c, rt, mode, st, why) ==
  /\ last' = [a |-> "deny", c |-> c, rt |-> rt, mode |-> mode, st |-> st, why |-> why, place |-> Place(rt, mode), extra |-> cfg.extra]
  /\ UNCHANGED vars
Redeem(s) == /\ ses[s].at < 0 /\ ses' = [ses EXCEPT ![s].at = now] /\ last' = [a |-> "redeem", s |-> s] /\ UNCHANGED <<cfg, now>>
Info(s) == /\ ses[s].at >= 0
           /\ last' = [a |-> "info", s |-> s, ok |-> Live(s), f |-> UiForm(ses[s].c), u |-> ses[s].u, kind |-> ses[s].kind]
           /\ UNCHANGED vars
Look(s) == ses[s].at >= 0 /\ last' = [a |-> "look", s |-> s, ok |-> Live(s)] /\ UNCHANGED vars
Refresh(s) == /\ ses[s].at >= 0 /\ ses' = [ses EXCEPT ![s].at = now] /\ last' = [a |-> "refresh", s |-> s] /\ UNCHANGED <<cfg, now>>
\* requests that are refused, at every endpoint there is
Flaws == {"secret", "code", "granttype", "refresh", "usertoken", "regtoken", "reguri", "paruri", "used"}
Wrong(c, w) == (w = "used" => \E s \in DOMAIN ses : ses[s].at >= 0 /\ ses[s].c = c) /\ last' = [a |-> "wrong", c |-> c, w |-> w]
               /\ (IF w = "used" THEN LET s == CHOOSE x \in DOMAIN ses : ses[x].at >= 0 /\ ses[x].c = c /\ (\A y \in DOMAIN ses : (ses[y].at >= 0 /\ ses[y].c = c) => x <= y)
                                      IN UNCHANGED cfg /\ UNCHANGED now /\ ses' = [i \in DOMAIN ses |-> IF i = s THEN [ses[s] EXCEPT !.at = 0 - 2] ELSE ses[i]]
                   ELSE UNCHANGED vars)
Others == {"register", "read", "push", "meta", "keys"}
Other(c, o) == last' = [a |-> "other", c |-> c, o |-> o] /\ UNCHANGED vars
Tick == now < MaxTime /\ now' = now + 1 /\ last' = [a |-> "tick"] /\ UNCHANGED <<cfg, ses>>
Reload == last' = [a |-> "reload"] /\ UNCHANGED vars

Gone(s) == ses[s].at = 0 - 2
Next == \/ \E u \in Users, c \in C, rt \in RTs, m \in Modes, st \in States, k \in Kinds : Authorize(u, c, rt, m, st, k)
        \/ \E c \in C, rt \in RTs, m \in Modes, st \in States, w \in {"login", "scope"} : Deny(c, rt, m, st, w)
        \/ \E s \in DOMAIN ses : ~Gone(s) /\ (Redeem(s) \/ Info(s) \/ Look(s) \/ Refresh(s))
        \/ \E c \in C : (\E w \in Flaws : Wrong(c, w)) \/ (\E o \in Others : Other(c, o))
        \/ Tick \/ Reload

---------------------------------------------------------------------------
TypeOK == \A s \in DOMAIN ses : ses[s].u \in Users /\ ses[s].at <= now
\* C29: tokens never in the query; the form that was agreed on
NotInQuery == [][last'.a = "authorize" /\ last'.place = "query" => last'.rt = <<"code">>]_<<vars, last>>
AsAgreed == [][last'.a = "info" /\ last'.ok => (last'.f.enc <=> cfg.ui[ses[last'.s].c] \in {"enc", "encsig"})
                                             /\ (last'.f.sig # "" <=> cfg.ui[ses[last'.s].c] \notin {"plain", "enc"})]_<<vars, last>>
Cfg(n, ui, extra) == [name |-> n, ui |-> ui, extra |-> extra]
CfgA == Cfg("signed", <<"plain", "RS256">>, FALSE)
CfgB == Cfg("extra", <<"ES256", "HS256">>, TRUE)
CfgC == Cfg("encrypted", <<"enc", "encsig">>, FALSE)
CfgD == Cfg("mixed", <<"HS256", "plain">>, TRUE)

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
