"""single source for properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": ["src/oidcop/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/oidcop/" + w} for n, w in mech]}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Codes are single use; replay kills everything derived from the code",
  "An authorization code can be redeemed for tokens at most once, however redemption attempts are ordered or overlapped. "
  "At the OpenID Connect token endpoint, presenting a code that was already redeemed is refused and, from then on, every token derived directly or indirectly from that code (through any number of refreshes) is dead; "
  "tokens that do not derive from that code are not affected.",
  ["histories", "schedules"], "all histories of authorizations, redemptions (also overlapped parse/process halves of requests), refreshes, revocations and clock advances, for any number of users, clients and grants",
  "The tests redeem one code twice in one fixed order and look at the direct children; the guarantee is about any derivation tree, any interleaving of requests and other grants.",
  ["oidc/token.py", "oauth2/token.py", "session/grant.py", "session/token.py"],
  [("code redemption", "oidc/token.py:AccessTokenHelper"), ("replay revocation", "session/grant.py:Grant.revoke_token"), ("usage limit", "session/token.py:Item.max_usage_reached")])

p("C02", "Codes and refresh tokens only work for the client and URI they belong to",
  "A live authorization code or refresh token produces tokens only for the authenticated client it was issued to, and a code only together with the redirect URI used in its authorization request. "
  "A refused attempt by another client or with another redirect URI issues nothing and neither uses up nor revokes the credential: its owner can still use it.",
  ["histories", "inputs"], "all histories in which any authenticated client presents any credential with any redirect URI, before or after its owner",
  "Tests try one wrong client / one wrong redirect URI on a fresh code; not after refreshes, on other grants, nor the no-side-effect half.",
  ["oidc/token.py", "oauth2/token.py"],
  [("client match", "oidc/token.py:AccessTokenHelper.process_request"), ("client match on refresh", "oidc/token.py:RefreshTokenHelper.process_request"), ("oauth2 flavour", "oauth2/token.py:AccessTokenHelper.process_request")])

p("C03", "Only live tokens are honoured",
  "A code, access token or refresh token is honoured (redeemed, refreshed, accepted at the userinfo endpoint, reported active by introspection) only if this server issued it as that kind of token, it has not expired, has not been revoked, has not exceeded its usage limit, and the grant it belongs to is neither revoked nor expired; userinfo further requires that the user's authentication is still valid. "
  "As long as all of that holds it is honoured.",
  ["histories", "inputs"], "all histories of issuance, use, revocation at every level (token, grant, client session, logout) and time, and every kind of string presented as a token",
  "Tests check one expired or one revoked token at a time; combinations (live token of a dead grant, expiry of the grant before the token, wrong kind at each endpoint) are not sampled.",
  ["session/token.py", "session/grant.py", "oidc/userinfo.py", "oauth2/introspection.py", "token/handler.py", "token/jwt_token.py"],
  [("liveness", "session/token.py:Item.is_active"), ("userinfo acceptance", "oidc/userinfo.py:UserInfo.process_request"), ("introspection", "oauth2/introspection.py:Introspection.process_request")])

p("C04", "Revocation is complete, precise and permanent",
  "Revoking a token kills exactly that token, or, recursively, exactly it and everything derived from it. "
  "Revoking a grant kills exactly the tokens of that grant, and revoking a client session kills exactly the grants of that user at that client. "
  "Nothing that happens afterwards makes a revoked token or grant work again.",
  ["histories"], "all histories mixing revocation at each level with further issuance, refresh and re-authorization by several users and clients",
  "Tests revoke in one small fixed tree; completeness and precision quantify over every derivation tree and over bystander grants.",
  ["session/grant.py", "session/manager.py", "session/database.py"],
  [("token revocation", "session/manager.py:SessionManager.revoke_token"), ("recursive revocation", "session/manager.py:SessionManager._revoke_dependent"), ("client session revocation", "session/manager.py:SessionManager.revoke_client_session"), ("grant revocation", "session/manager.py:SessionManager.revoke_grant")])

p("C05", "No token ever carries more scope than was granted",
  "Every token's scope is contained in the scope the user granted for that authorization (the requested scopes, as far as the client may use them); a refresh request that asks for a scope outside that of the credential its refresh token was obtained with is refused and changes nothing. "
  "A refresh that asks for an allowed scope yields tokens with exactly that scope, and one that asks for none yields that credential's scope. "
  "The scope told to the client and the scope reported by introspection are the scope the token carries.",
  ["histories", "inputs"], "all chains of refreshes with arbitrary requested scope subsets and supersets, across rotated refresh tokens",
  "Tests use one or two scope values and one refresh; chains of narrowing refreshes are unbounded.",
  ["oidc/token.py", "oauth2/token.py", "session/grant.py", "oauth2/introspection.py"],
  [("scope lookup", "session/grant.py:Grant.find_scope"), ("refresh scope check", "oidc/token.py:RefreshTokenHelper.post_parse_request"), ("minting", "session/grant.py:Grant.mint_token")])

p("C06", "A credential mints only what its usage rules and the client's registration allow",
  "Redeeming a code or refresh token yields only the token kinds that its usage rules let it mint; a refresh token is handed out only when the grant allows offline access (or the server policy asks for it) and the client may use the refresh grant, and an ID token only when the openid scope is in play. "
  "The token endpoint serves only the grant types that the client registered (if it registered any) and the server supports. "
  "If the server or, with priority, the client is configured to revoke refresh tokens on use, a refresh token is dead once it has been used.",
  ["configurations", "histories"], "all usage-rule, grant-type and revoke-on-issue configurations at server and client level combined with all redemption/refresh sequences",
  "Tests fix one configuration per case; the product of configurations and refresh chains is not enumerated.",
  ["oidc/token.py", "oauth2/token.py", "session/token.py", "session/grant.py"],
  [("supports minting", "session/token.py:SessionToken.supports_minting"), ("issue refresh", "oidc/token.py:AccessTokenHelper.process_request"), ("revoke on issue", "oidc/token.py:RefreshTokenHelper.process_request"), ("grant types", "oauth2/token.py:Token._post_parse_request")])

p("C07", "Requests are only processed for clients that proved who they are",
  "An endpoint that requires client authentication processes a request only if it carries, by a method enabled for that endpoint, a valid credential of a known client whose secret has not expired: its own secret in the header or body, or an unexpired assertion addressed to that endpoint and signed with that client's secret or registered key as the method demands. "
  "The request is then processed as that client, whatever client identifier the request claims elsewhere. "
  "A bearer token authenticates only as the client it was issued to.",
  ["inputs", "configurations"], "every combination of authentication material (method, right/wrong/other client's secret or key, audience, expiry, issuer, algorithm, claimed client id) with every set of enabled methods at token, introspection and pushed-authorization endpoints",
  "Tests check a handful of valid/invalid credentials; the cross product with claimed identity, method sets, audience and time is not covered.",
  ["client_authn.py", "endpoint.py"],
  [("dispatch", "client_authn.py:verify_client"), ("assertions", "client_authn.py:JWSAuthnMethod.verify"), ("secrets", "client_authn.py:ClientSecretBasic.verify")])

p("C08", "A client assertion with an identifier is accepted at most once",
  "A client authentication assertion that carries an identifier is accepted at most once by the server, at whatever endpoint and however much time passes. "
  "Assertions of different clients, or with different identifiers, do not interfere, and a rejected assertion does not burn the identifier for a valid one.",
  ["histories"], "all sequences of assertion presentations by several clients with colliding identifiers at several endpoints",
  "Tests replay one assertion once; interference between clients/endpoints/time quantifies over histories.",
  ["client_authn.py"],
  [("jti registry", "client_authn.py:JWSAuthnMethod.verify"), ("dispatch", "client_authn.py:verify_client")])

p("C09", "Answers only ever go to a redirect URI registered for that client",
  "An authorization (or pushed authorization) request is accepted only if its redirect URI is one the requesting client registered: same base and exactly the registered query parameters and values, and no fragment; when it names none, the single registered URI is used. "
  "Otherwise it is refused without anything being sent to the requested URI.",
  ["inputs", "configurations"], "all relationships between requested URI and every client's registered URIs (scheme, host, port, path, query keys/values, fragment, encoding), at the authorization and pushed authorization endpoints",
  "Tests try about ten URIs against one or two registrations.",
  ["oauth2/authorization.py", "util.py"],
  [("matching", "oauth2/authorization.py:verify_uri"), ("default", "oauth2/authorization.py:get_uri")])

p("C10", "An authorization response contains exactly what was asked for, as asked",
  "An authorization request is accepted only with a response type the client registered, and a successful response contains exactly the artifacts that response type names (code, access token, ID token or none), plus the request's state unchanged, the issuer and the client identifier. "
  "It is delivered in the query for code alone and in the fragment otherwise unless the request asks for a form post; a response mode that would expose tokens in the query is refused, and error responses carry the state too. "
  "Every artifact belongs to the session of the authenticated user and the requesting client.",
  ["inputs", "configurations"], "all response types x registered response types x response modes x states",
  "Tests cover a few response types and modes and rarely their combination or exact content.",
  ["oauth2/authorization.py", "oidc/authorization.py"],
  [("content", "oauth2/authorization.py:Authorization.create_authn_response"), ("mode", "oauth2/authorization.py:Authorization.response_mode"), ("type check", "oauth2/authorization.py:Authorization.verify_response_type")])

p("C11", "A code requested with a PKCE challenge needs its verifier",
  "With PKCE enabled, a code whose authorization request carried a code challenge yields tokens only if the token request carries the verifier whose transform, under the method declared in that authorization request (plain when none was declared), equals that challenge. "
  "A request without a challenge is refused when PKCE is essential for that client (client setting first, then the server's), and a challenge with a method that is not enabled is always refused.",
  ["inputs", "configurations", "histories"], "all challenge/method/verifier combinations, essential settings at both levels, enabled method sets, and several outstanding codes at once",
  "Tests use one or two verifiers and one code at a time.",
  ["oidc/add_on/pkce.py"],
  [("authorization side", "oidc/add_on/pkce.py:post_authn_parse"), ("token side", "oidc/add_on/pkce.py:post_token_parse"), ("verification", "oidc/add_on/pkce.py:verify_code_challenge")])

p("C12", "A pushed request is used at most once, by its client, in time, unchanged",
  "A pushed authorization request reference can be used in at most one authorization request, only by the client that pushed it and only within the lifetime announced when it was pushed. "
  "The authorization request then processed is the pushed one: parameters sent beside the reference do not override it. "
  "Requests are stored only for authenticated clients with a valid redirect URI, and references of different requests never mix.",
  ["histories", "inputs"], "all sequences of pushes and uses by several clients with conflicting parameters and clock advances",
  "Tests push once and use once.",
  ["oauth2/pushed_authorization.py", "oauth2/authorization.py"],
  [("storage", "oauth2/pushed_authorization.py:PushedAuthorization.process_request"), ("use", "oauth2/authorization.py:Authorization._do_request_uri")])

p("C13", "Sessions of different users and clients never mix",
  "Every token and session identifier resolves, for its whole life, to exactly the user, client and grant it was created for, and removing, revoking or modifying one user's session at one client leaves every other user/client combination as it was. "
  "After a session has been removed, nothing issued in it resolves any more.",
  ["histories"], "all histories of session creation, grant creation, removal, revocation for several users and clients",
  "Tests build two or three sessions by hand.",
  ["session/manager.py", "session/database.py"],
  [("storage", "session/database.py:Database.set"), ("removal", "session/database.py:Database.delete"), ("session identifiers", "session/database.py:Database.decrypt_session_id"), ("token to session", "session/manager.py:SessionManager.get_session_info_by_token")])

p("C14", "Subject identifiers are stable and never shared",
  "A public subject identifier is the same for a user in every session at every client and differs between users; a pairwise one is the same for a user within a sector and differs between users and between sectors; an ephemeral one is fresh for every authorization. "
  "ID token, userinfo and introspection all report the same subject for one authorization, and none of this changes over time or through a dump and reload of the server's state.",
  ["histories", "inputs"], "all sets of users, sectors, subject types and repeated logins",
  "Tests compute identifiers once or twice; stability and distinctness quantify over pairs of sessions in any history.",
  ["session/manager.py", "token/id_token.py", "oidc/userinfo.py"],
  [("minting", "session/manager.py:SessionManager.create_grant"), ("pairwise", "session/manager.py:pairwise_id"), ("public", "session/manager.py:public_id")])

p("C15", "User claims are released only where and as they were asked for and allowed",
  "A claim about the user appears in a userinfo response, ID token, access token or introspection response only if, for that release point, server configuration, client configuration, an allowed scope mapped to it, or the request's claims parameter selects it, and if its value satisfies the value restrictions of the request; and every claim so selected that the user has does appear. "
  "What is released for one request or client never depends on earlier requests or other clients, and is never another user's data.",
  ["configurations", "inputs", "histories"], "the product of base claims, claims by scope, always-claims, per-client settings, scopes, scope-to-claims maps and claims parameters at the four release points, over sequences of requests",
  "Tests pin about fifteen points of that product and never look at two requests in sequence.",
  ["session/claims.py", "scopes.py", "oidc/userinfo.py", "session/grant.py"],
  [("selection", "session/claims.py:ClaimsInterface.get_claims_from_request"), ("per client", "session/claims.py:ClaimsInterface._client_claims"), ("filter", "session/claims.py:claims_match"), ("scope mapping", "scopes.py:Scopes.scopes_to_claims")])

p("C16", "ID tokens say exactly who, for whom, when and in answer to what",
  "Every ID token verifies with the server's published keys (for an HMAC algorithm, with the client's secret) under the algorithm in force for the client, names this server as issuer, the requesting client as audience and the grant's subject, and carries the authentication time, the context class and the nonce of that authorization (and no nonce if none was sent) with an expiry equal to issue time plus configured lifetime. "
  "When issued beside a code or access token at the authorization endpoint it carries the matching hashes of exactly these; user claims never override protocol claims.",
  ["inputs", "configurations"], "all response types, nonces, authentication events, client algorithms and user records (including ones with clashing claim names)",
  "Tests verify single claims of single tokens.",
  ["token/id_token.py", "oauth2/authorization.py", "oidc/token.py"],
  [("payload", "token/id_token.py:IDToken.payload"), ("signing", "token/id_token.py:IDToken.sign_encrypt"), ("algorithms", "token/id_token.py:get_sign_and_encrypt_algorithms")])

p("C17", "Logout reaches every session it should and none it should not",
  "A confirmed logout ends, for that user, the sessions at the client that asked (or, when logging out everywhere, at all clients): their tokens are dead and their cookies no longer log the user in, and every affected client that registered for logout notification and received an ID token is notified exactly once, with a verifiable logout token or frame meant for that client, even if notifying another one fails. "
  "Other users' sessions and, in the single-client case, other clients' sessions are untouched. "
  "A logout request needs the session's cookie, any ID token hint must match that session, and a return address is only accepted if that client registered it.",
  ["histories", "fault_sequences", "configurations"], "all sets of sessions of several users at clients with every kind of logout registration, with notification failures",
  "Tests log out of one or two sessions with every notification succeeding.",
  ["oidc/session.py", "session/manager.py"],
  [("all clients", "oidc/session.py:Session.logout_all_clients"), ("one client", "oidc/session.py:Session.logout_from_client"), ("execution", "oidc/session.py:Session.do_verified_logout"), ("request", "oidc/session.py:Session.process_request")])

p("C18", "Cookies cannot be forged and always round trip",
  "A cookie value made by the server parses back to exactly the value, type and timestamp it was made from, whatever characters they contain. "
  "Any other string (altered, truncated, recombined from parts of several cookies, made with another key) is never accepted as carrying different content, in every key configuration (signing, signing and encryption, encryption).",
  ["inputs", "configurations"], "all values and types over the delimiter alphabet, all edits and recombinations of cookie parts, all three key configurations",
  "Tests parse a few well-behaved values back and flip one byte.",
  ["cookie_handler.py"],
  [("make", "cookie_handler.py:CookieHandler.make_cookie_content"), ("parse", "cookie_handler.py:CookieHandler.parse_cookie"), ("protect", "cookie_handler.py:CookieHandler._sign_enc_payload"), ("verify", "cookie_handler.py:CookieHandler._ver_dec_content")])

p("C19", "Single sign-on happens only while the original login still counts",
  "An authorization request is answered without asking the user to log in only if it comes with this server's session cookie of a session at the same client whose grant is neither revoked nor expired and whose login is still valid and no older than the request's maximum age, and the request does not demand a new login; it is then answered for the very user who logged in. "
  "In every other case the login page is shown, or, if the request forbids interaction, it is answered with login_required.",
  ["histories", "inputs"], "all sequences of logins, single sign-ons, logouts and clock advances with every combination of prompt, max_age and cookie",
  "Tests check one cookie with one prompt at a time and hardly use time; chains of single sign-on are not tested.",
  ["oauth2/authorization.py", "user_authn/user.py", "authn_event.py"],
  [("decision", "oauth2/authorization.py:Authorization.setup_auth"), ("cookie", "user_authn/user.py:UserAuthnMethod.authenticated_as"), ("validity", "authn_event.py:AuthnEvent.is_valid")])

p("C20", "Registration stores only clients it accepted, as it told them",
  "A registration request is accepted only if it asks for nothing the provider does not support and its redirect, logo, policy, request and sector URIs obey the rules for its application type (https or loopback or private scheme, no fragment, same site, listed in the sector document); it then gets an identifier and secret that nobody else has, which work at the token endpoint until the announced expiry, and reading the registration back with its own access token (only that one) returns what was registered. "
  "A refused registration leaves no trace: no client, no secret, no registration token.",
  ["inputs", "histories"], "all combinations of application type, response types, URIs and capabilities, in sequences of successful and failing registrations",
  "Tests try one defect at a time and look at the error, not at the state left behind.",
  ["oidc/registration.py", "oidc/read_registration.py"],
  [("setup", "oidc/registration.py:Registration.client_registration_setup"), ("URI rules", "oidc/registration.py:Registration.verify_redirect_uris"), ("capabilities", "oidc/registration.py:Registration.match_client_request"), ("read", "oidc/read_registration.py:RegistrationRead")])

p("C21", "Dump and reload of the server state changes nothing observable",
  "If the server's state is dumped and loaded into a fresh server with the same configuration and keys, every later request gets the same answer as it would have from the original: live tokens stay live, dead ones dead, used codes used, derivation trees, scopes, subjects and expiry unchanged.",
  ["crash_points", "histories"], "a dump/reload at every point of every history",
  "Tests dump and reload once at one or two points.",
  ["session/database.py", "session/grant.py", "session/token.py", "endpoint_context.py", "server.py"],
  [("session dump", "session/database.py:Database"), ("grant dump", "session/grant.py:Grant"), ("context", "endpoint_context.py:EndpointContext")])

p("C22", "Introspection tells the truth",
  "Introspection answers active for a token exactly if that token is a live access or refresh token, and answers inactive, rather than failing, for every other string an authenticated client sends. "
  "An active answer reports the token's own scope, client, subject, issue and expiry time; an inactive one reveals nothing else.",
  ["histories", "inputs"], "all token kinds, token states and strings at every point of every history",
  "Tests introspect a handful of tokens.",
  ["oauth2/introspection.py"],
  [("decision", "oauth2/introspection.py:Introspection.process_request"), ("content", "oauth2/introspection.py:Introspection._introspect")])

p("C23", "DPoP-bound tokens are bound to the key that proved itself",
  "With DPoP enabled, a token request is served only with a proof signed by the key it names, with an enabled asymmetric algorithm, of the right type and for exactly this endpoint address and method; the access token then issued is bound to that very key. "
  "Proofs for other addresses or methods, with bad signatures, other types or disallowed algorithms issue nothing.",
  ["inputs", "histories"], "all combinations of proof key, signature key, algorithm, type, address and method, over code redemption and refresh with changing keys",
  "Tests present one good proof.",
  ["oauth2/add_on/dpop.py", "oidc/token.py", "session/grant.py"],
  [("proof check", "oauth2/add_on/dpop.py:post_parse_request"), ("signature", "oauth2/add_on/dpop.py:DPoPProof.verify_header"), ("binding", "session/grant.py:Grant.payload_arguments")])

p("C24", "Usage rules are layered per client and never leak between clients",
  "The usage rules in force for a token are the server's rules overridden, token kind by token kind and rule by rule, by those of the client it is issued to, with an explicitly empty client rule set disabling the server's for that kind. "
  "Issuing or using tokens never changes the configured rules: the rules applied to a client do not depend on earlier requests or on other clients.",
  ["configurations", "histories"], "all combinations of server and client rules for the token kinds, over sequences of authorizations by several clients",
  "Tests read the merged rules once for one client.",
  ["authz/__init__.py", "session/grant.py", "oauth2/token.py"],
  [("merge", "authz/__init__.py:AuthzHandling.usage_rules"), ("application", "session/grant.py:Grant.mint_token")])

p("C25", "Announced lifetimes are the enforced ones",
  "The lifetime announced to the client for an access token, the expiry reported by introspection and, for signed tokens, the expiry inside the token all denote the moment up to which the token is honoured, as set by the usage rules in force for that client. "
  "Authorization codes, refresh tokens and grants are likewise honoured up to, and never after, the lifetime configured for them.",
  ["configurations", "histories"], "all lifetime settings at grant, token-rule and client level and all clock positions around each boundary",
  "Tests use one lifetime and jump far beyond it; the boundaries and combinations are not probed.",
  ["session/token.py", "oauth2/token.py", "oauth2/authorization.py", "token/jwt_token.py"],
  [("enforcement", "session/token.py:Item.is_active"), ("announcement", "oidc/token.py:AccessTokenHelper.process_request"), ("in-token expiry", "token/jwt_token.py:JWTToken")])

p("C26", "A signed request speaks for the client whose key signed it",
  "Parameters from a signed request object, passed by value or fetched from a reference, are used only if the object is signed with a key of the client that makes the request, under an algorithm allowed for that client, and, for references, only if the reference is one the client registered when it registered any. "
  "Signed parameters take precedence over unsigned ones, and the request is still subject to every check (redirect URI, response type, client identity) after the merge.",
  ["inputs", "configurations"], "all combinations of signing key, algorithm, registered references and conflicting parameters",
  "Tests use one well-formed object each.",
  ["oauth2/authorization.py"],
  [("by reference", "oauth2/authorization.py:Authorization._do_request_uri"), ("algorithms", "oauth2/authorization.py:AllowedAlgorithms")])

p("C27", "What the server announces about itself is what it is and does",
  "The provider metadata name exactly the endpoints that are configured, under the issuer, and the client authentication methods, signature algorithms, response types, grant types and other capabilities that are configured. "
  "What is announced works and what is not announced is refused (or not agreed to at registration), everything signed is signed by an announced algorithm and verifies with the published keys, and the document stays the same whatever has been done with the server, another server has started in the process or the server has been reloaded.",
  ["configurations", "histories"], "all combinations of configured endpoints, methods, algorithms, response types and grants, and all histories of use",
  "Tests compare one document with one configuration and do not try what is announced.",
  ["endpoint_context.py", "oidc/provider_config.py", "oidc/discovery.py", "server.py", "endpoint.py", "client_authn.py"],
  [("document", "oidc/provider_config.py:ProviderConfiguration.process_request"), ("capabilities", "endpoint_context.py:EndpointContext.create_providerinfo"), ("per endpoint", "endpoint.py:Endpoint.__init__")])

p("C28", "Logging in takes the right credentials and is recorded as what it was",
  "The authentication method used for a request is one that gives the authentication class asked for, the first that can be met when several are named, and nobody is logged in by another method when none gives it. "
  "A session comes about only when the user's own password has been given to that method, on a page this server made for that request, or on the strength of an existing login. "
  "What is recorded and told the client (who, when, which class) is what happened, also when the login is reused, and the answer is to the request the page was shown for.",
  ["inputs", "histories", "configurations"], "all requests for authentication classes, credentials, page tokens and sets of authentication methods, and all sequences of logins",
  "Tests verify one right password and pick among two methods in single calls.",
  ["user_authn/authn_context.py", "user_authn/user.py", "oauth2/authorization.py", "authn_event.py", "login_hint.py"],
  [("choice", "user_authn/authn_context.py:pick_auth"), ("password page", "user_authn/user.py:UserPassJinja2.verify"), ("page token", "user_authn/user.py:UserAuthnMethod.unpack_token"), ("basic", "user_authn/user.py:BasicAuthn"), ("event", "authn_event.py:create_authn_event")])

p("C29", "What leaves the server is what was decided",
  "An answer says exactly what the endpoint decided: every parameter arrives unaltered whatever characters it holds, nothing is added, and an error carries no token, code or secret. "
  "It has the form that was agreed on: JSON, query, fragment (always, when tokens are given from the authorization endpoint without another mode asked for) or form sent to the client's redirect URI, "
  "userinfo signed or encrypted as the client registered and verifiable with the keys that go with that. "
  "Its content type tells what it is, and it may not be cached.",
  ["inputs", "histories", "configurations"], "all answers of all endpoints, granted and refused, for all states, attribute values, redirect URIs, response modes and client settings",
  "Tests look at process_request's result or at single responses with plain values.",
  ["endpoint.py", "oauth2/authorization.py", "oidc/userinfo.py", "util.py"],
  [("answer", "endpoint.py:Endpoint.do_response"), ("form", "oauth2/authorization.py:Authorization.response_mode"), ("userinfo", "oidc/userinfo.py:UserInfo.do_response"), ("errors", "oauth2/authorization.py:Authorization.error_response")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
