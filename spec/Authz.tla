-------------------------------- MODULE Authz --------------------------------
(* The authorization endpoint (and the pushed authorization endpoint): which
   redirect URIs are accepted, and what the answer consists of (C09, C10).

   A registered URI is [base, query]; query is a set of <<key, value>> pairs.
   A requested URI is [base, var, query, frag]: `var` says how its base part
   differs from the base it was made from ("same" = not at all).               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS Configs, Acts, MaxFlaws, Thorough
VARIABLES cfg, last
vars == <<cfg>>

Clients == DOMAIN cfg.client

Vars == {"same", "sub", "parent", "slash", "case", "hostcase", "scheme", "port", "userinfo", "enc", "dots", "space",
         "hostsuffix", "semi", "backslash", "newline"}
Frags == {"none", "empty", "f"}
X1 == <<"x", "1">>
X2 == <<"x", "2">>
Y2 == <<"y", "2">>
XE == <<"x", "">>
Queries == {{}, {X1}, {X2}, {XE}, {X1, Y2}, {X1, X2}, {Y2}, {X1, <<"z", "1">>}, {<<"X", "1">>}, {<<"x", "11">>}, {<<"x1", "">>}}
Bases == {"b1", "b2", "other"}     \* "other": the other client's URI

Uri(b, v, q, f) == [base |-> b, var |-> v, query |-> q, frag |-> f]
Missing == Uri("missing", "same", {}, "none")
Flaw(b) == IF b THEN 1 ELSE 0

Registered(c) == cfg.client[c].uris          \* set of [base, query]
Matching(c, u) == {r \in Registered(c) : r.base = u.base /\ r.query = u.query}
SameBase(c, u) == {r \in Registered(c) : r.base = u.base}
UriOk(c, u) == /\ u.var = "same" /\ u.frag = "none" /\ Matching(c, u) # {}
\* "must": has to be accepted, "may": correct, but nobody has to (several registered URIs
\* that only differ in their query), "no"
UriVerdict(c, u) ==
  IF u.base = "missing"
  THEN IF Cardinality(Registered(c)) # 1 THEN "no" ELSE IF cfg.flavour = "oauth2" THEN "must" ELSE "may"
  ELSE IF ~UriOk(c, u) THEN "no"
  ELSE IF Cardinality(SameBase(c, u)) > 1 THEN "may" ELSE "must"

\* where the answer goes: the registered URI itself
Target(c, u) == IF u.base = "missing" THEN CHOOSE r \in Registered(c) : TRUE ELSE [base |-> u.base, query |-> u.query]

---------------------------------------------------------------------------
(* response types: sequences of words (order does not matter)                *)
RTs == {<<"code">>, <<"token">>, <<"id_token">>, <<"none">>, <<"code", "token">>, <<"token", "code">>,
        <<"code", "id_token">>, <<"id_token", "code">>, <<"id_token", "token">>, <<"token", "id_token">>,
        <<"code", "id_token", "token">>, <<"token", "code", "id_token">>, <<"id_token", "token", "code">>,
        <<"code", "none">>, <<"bogus">>, <<"code", "bogus">>, <<"code", "code">>}
WordsOf(rt) == {rt[i] : i \in DOMAIN rt}
RtRegistered(c) == IF cfg.client[c].rts = {} THEN {{"code"}} ELSE cfg.client[c].rts
RtOk(c, rt) == WordsOf(rt) \in RtRegistered(c)
Artifacts(rt) == WordsOf(rt) \ {"none"}
Exposes(rt) == Artifacts(rt) \cap {"token", "id_token"} # {}
Modes == {"", "query", "fragment", "form_post", "bogus"}
\* where the answer is placed; "no" = the request is refused, "?" = refused or at any place that does not expose tokens
Placement(rt, mode) ==
  LET natural == IF Artifacts(rt) \subseteq {"code"} THEN "query" ELSE "fragment" IN
  CASE mode = "" -> natural
    [] mode = "form_post" -> "form_post"
    [] mode = "bogus" -> "no"
    [] mode = natural -> natural
    [] mode = "query" /\ natural = "fragment" -> "no"
    [] OTHER -> "?"

Init == cfg \in Configs /\ last = [a |-> "init"]

(* does this server accept this redirect URI for this client? *)
AskUri(ep, c, u) ==
  /\ "uri" \in Acts
  /\ Flaw(u.var # "same") + Flaw(u.frag # "none") + Flaw(Matching(c, u) = {}) <= MaxFlaws
  /\ LET v == UriVerdict(c, u) IN
     last' = [a |-> "uri", ep |-> ep, c |-> c, u |-> u, verdict |-> v, to |-> IF v = "no" THEN {} ELSE {Target(c, u)}]
  /\ UNCHANGED vars

(* the whole answer to a request with a registered URI *)
AskResp(c, r, rt, mode, state, user) ==
  /\ "resp" \in Acts
  /\ LET ok == RtOk(c, rt)
         pl == Placement(rt, mode)
     IN last' = [a |-> "resp", c |-> c, to |-> r, rt |-> rt, mode |-> mode, state |-> state, user |-> user,
                 verdict |-> IF ~ok THEN "no" ELSE IF pl = "no" THEN "nomode" ELSE IF pl = "?" THEN "may" ELSE "must",
                 place |-> pl, has |-> IF ok THEN Artifacts(rt) ELSE {}]
  /\ UNCHANGED vars

States == {"none", "plain", "special", "html", "unicode", "long"}
\* the server's state is dumped and loaded into a fresh server
Reload == last' = [a |-> "reload"] /\ UNCHANGED vars

Next ==
  \/ \E ep \in {"authorization", "pushed_authorization"}, c \in Clients, b \in Bases, v \in Vars, q \in Queries, f \in Frags :
       AskUri(ep, c, Uri(b, v, q, f))
  \/ \E ep \in {"authorization", "pushed_authorization"}, c \in Clients : AskUri(ep, c, Missing)
  \/ \E c \in Clients, rt \in RTs, mode \in Modes, s \in States, u \in {"diana", "bob"} : \E r \in Registered(c) :
       AskResp(c, r, rt, mode, s, u)
  \/ Reload

---------------------------------------------------------------------------
\* C09: wherever an answer goes to is registered for that very client
OnlyRegistered == [][last'.a = "uri" => \A r \in last'.to : r \in Registered(last'.c)]_<<vars, last>>
NoFragments == [][(last'.a = "uri" /\ last'.u.frag # "none") => last'.verdict = "no"]_<<vars, last>>
\* C10
NoTokensInQuery == [][(last'.a = "resp" /\ last'.verdict = "must" /\ last'.place = "query") =>
                       last'.has \cap {"token", "id_token"} = {}]_<<vars, last>>
ExactArtifacts == [][(last'.a = "resp" /\ last'.verdict = "must") => last'.has = WordsOf(last'.rt) \ {"none"}]_<<vars, last>>

---------------------------------------------------------------------------
AllRts == {{"code"}, {"token"}, {"id_token"}, {"none"}, {"code", "token"}, {"code", "id_token"}, {"id_token", "token"},
           {"code", "id_token", "token"}}
R(b, q) == [base |-> b, query |-> q]
Cl(us, rts) == [uris |-> us, rts |-> rts]
Cfg(n, fl, c1, c2) == [name |-> n, flavour |-> fl, client |-> [c1 |-> c1, c2 |-> c2]]
Oth == Cl({R("other", {})}, {{"code"}})
CfgOne == Cfg("one", "oidc", Cl({R("b1", {})}, {{"code"}}), Oth)
CfgOneO == Cfg("oneo", "oauth2", Cl({R("b1", {})}, {{"code"}}), Oth)
CfgTwo == Cfg("two", "oidc", Cl({R("b1", {}), R("b2", {X1})}, {{"code"}}), Oth)
CfgTwoO == Cfg("twoo", "oauth2", Cl({R("b1", {}), R("b2", {X1})}, {{"code"}}), Oth)
CfgQ1 == Cfg("q1", "oauth2", Cl({R("b1", {X1})}, {{"code"}}), Cl({R("other", {X1, X2})}, {{"code"}}))
CfgQ2 == Cfg("q2", "oidc", Cl({R("b1", {X1, Y2}), R("b2", {XE})}, {{"code"}}), Cl({R("other", {X1})}, {{"code"}}))
CfgQ3 == Cfg("q3", "oauth2", Cl({R("b1", {X1, X2})}, {{"code"}}), Cl({R("other", {XE})}, {{"code"}}))
CfgQ4 == Cfg("q4", "oauth2", Cl({R("b1", {X1}), R("b1", {X2}), R("b2", {})}, {{"code"}}), Oth)
\* nothing registered for c1
CfgNone == Cfg("none", "oauth2", Cl({}, {{"code"}}), Oth)
CfgRtAll == Cfg("rtall", "oidc", Cl({R("b1", {})}, AllRts), Cl({R("other", {X1})}, {{"code", "id_token"}, {"token"}}))
CfgRtDef == Cfg("rtdef", "oidc", Cl({R("b1", {X1, Y2})}, {}), Cl({R("other", {})}, {{"id_token"}, {"code", "id_token", "token"}}))
CfgRtO == Cfg("rto", "oauth2", Cl({R("b1", {X1})}, {{"code"}, {"token"}, {"code", "token"}}), Cl({R("other", {})}, {{"token"}}))

FP(x) == <<TLCFP(<<1, x>>), TLCFP(<<2, x>>)>>
View == vars
Emit == PrintT(ToJson([c |-> cfg.name, f |-> FP(vars), t |-> FP(vars'), l |-> last', o |-> 0]))
EmitCfg == (last.a = "init") => PrintT(ToJson([cfg |-> cfg, f |-> FP(vars)]))
=============================================================================
