NA = {}
c("C01 C02 C03 C04 C05 C06 C13 C21 C22 C24 C25", "Core.tla",
  "the design properties are model checked exhaustively within the constants of harness/jobs_core.py (up to 2 users, 2 "
  "clients, 4 grants, 8 tokens, 5 clock ticks); the code is bound to the model by replaying the transitions of the state "
  "graph (all of them in the thorough tier where feasible, a class-balanced selection in the quick tier) and random "
  "behaviours")
c("C07 C08", "ClientAuth.tla",
  "which credential authenticates which client at which endpoint, with every single flaw in a "
  "credential (every pair in the thorough tier), two credentials in one request, assertion identifiers used by two clients, "
  "bearer tokens, clock and reload; every transition is replayed against real endpoints")
c("C09 C10", "Authz.tla",
  "every registered URI of nine client registrations against every combination of two flaws in the requested URI (three in "
  "the thorough tier), and every response type, response mode and kind of state; replayed against the authorization and "
  "pushed authorization endpoints")
c("C11", "Pkce.tla",
  "strings as terms over seeds and transforms: every challenge, declared method, verifier, essential setting (server and "
  "client), way of sending the request (plain, pushed), one and two codes at a time, replay, refresh and reload")
c("C12", "Par.tla",
  "two clients, up to two pushed requests (three in the thorough tier) of four kinds, with and without valid "
  "authentication and with flawed contents, used by owner and others in and out of time, with overriding and additional "
  "parameters beside the reference, made up references, reload")
c("C26", "ReqObj.tla",
  "every combination of up to three deviations (four in the thorough tier) of signer, algorithm, issuer, client_id, "
  "contents, outer parameters and reference, by value and by reference, for clients with and without registered algorithm "
  "and references")

c("C18", "Cookie.tla",
  "protection as symbolic terms: values and types over an alphabet of the encoding's special characters, every combination of "
  "fields of two cookies (own and foreign key), altered, exchanged, dropped, moved, under both names, in the three key "
  "configurations given as text, keys and key files")
c("C17 C19", "Sso.tla",
  "two users, two or three clients with every kind of logout registration, up to three sessions (six in random behaviours): every "
  "combination of cookie, prompt, max_age and repeated request over logins, single sign-ons, revocations, logouts (at one client, "
  "everywhere, with notification failures), clock and reload; flawed logout requests and unusable cookies")

c("C15", "Claims.tla",
  "ten kinds of settings at each of the four release points, client settings, four combinations of scope maps and allowed scopes, "
  "in fifty-odd configurations; every scope and response type, every kind of restriction in the claims parameter, refreshed with "
  "narrowed scope, for two users and two clients, one after the other and side by side, and reload")
c("C16", "IdToken.tla, Sso.tla",
  "every response type, client and server algorithm, nonce, authentication event, users whose attributes have protocol claims' "
  "names; ID tokens of the authorization endpoint, redemption, refresh and single sign-on, clock and reload")
c("C14", "Subject.tla",
  "two users and three clients with every subject type, sectors by redirect URI or sector document, built-in and configured minters: "
  "subjects in ID tokens, access tokens, userinfo and introspection over logins, single sign-ons, repeated requests, refreshes, clock and "
  "reload are functions of user (and sector), injective, and fresh when ephemeral")
c("C20", "Registration.tla",
  "every combination of application type, response types and pairs of redirect URI kinds; every further attribute good and bad, alone and "
  "in pairs, with wide and narrow providers; credentials used and registrations read with every token, over expiry, other registrations "
  "(accepted and refused) and reload")
c("C23", "Dpop.tla",
  "every good proof with every deviation (signer, algorithm, type, address, method, key, claims that contradict the header) at "
  "redemption and refresh, for OIDC and OAuth2 servers; changing keys over two grants with several tokens each, and reload")
c("C27", "Provider.tla",
  "six configurations of endpoints, client authentication methods, algorithms, response types, PAR, DPoP, request URIs and session "
  "management: the document compared with them, and every announced (and not announced) method, algorithm, response type and grant "
  "tried out, over histories of registrations, flows, other servers starting in the process, and reload")
c("C28", "Login.tla",
  "six sets of authentication methods (login page, basic, automatic), every way to ask for an authentication class with every value, "
  "every kind of wrong password, page tokens of other making; what is logged, told in ID tokens and reused over single sign-on, clock and reload")
c("C29", "Wire.tla",
  "userinfo plain, signed with each kind of algorithm, encrypted and both, with attributes of odd types and names; every response type, mode and "
  "state at the authorization endpoint, granted and denied; refused requests at every endpoint; and every answer in the behaviours of twelve other "
  "modules, each put on the wire and read back: content type, caching, encoding, and nothing but what was decided")
