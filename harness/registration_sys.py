"""Drives real servers along behaviours of spec/Registration.tla."""
import base64, copy, json, random
from urllib.parse import quote_plus, urlparse, parse_qsl
import opsys
from opsys import CLOCK, call, make_server, base_conf, authorize, reload_server, JWT
from engine import Div
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from clientauth_sys import key_of, pub_jwk
import oidcop.oidc.registration as regmod

TICK = 400
T = {"C20"}
SITES = [("https://client.example.com", "https://second.example.org"), ("https://client.example.com:8443", "https://client.example.com"),
         ("https://a.example.com", "https://b.example.com")]
PAGE = ["/policy", "/p/policy.html", "/", "", "/x?y=z"]
UA_FIELDS = {"request_object_encryption": "request_object_encryption", "userinfo_encrypted_response": "userinfo_encryption",
             "id_token_encrypted_response": "id_token_encryption"}
PUB = {"grant_types": "grant_types_supported", "default_acr_values": "acr_values_supported",
       "request_object_signing_alg": "request_object_signing_alg_values_supported",
       "userinfo_signed_response_alg": "userinfo_signing_alg_values_supported",
       "id_token_signed_response_alg": "id_token_signing_alg_values_supported", "subject_type": "subject_types_supported",
       "token_endpoint_auth_method": "token_endpoint_auth_methods_supported",
       "token_endpoint_auth_signing_alg": "token_endpoint_auth_signing_alg_values_supported"}
BAD = {"grant_types": ["password", "client_credentials", "authorization_cod"], "default_acr_values": ["loa9", "urn:x"],
       "request_object_signing_alg": ["none", "RS1", "rs256"], "userinfo_signed_response_alg": ["RS1", "none", "es256"],
       "id_token_signed_response_alg": ["RS1", "HS1", "none"], "subject_type": ["shared", "ephemeral", "Public"],
       "token_endpoint_auth_method": ["tls_client_auth", "none", "client_secret", ""],
       "token_endpoint_auth_signing_alg": ["RS1", "none"]}


def norm(u):
    p = urlparse(u)
    return (p.scheme, p.netloc, p.path, sorted(parse_qsl(p.query, keep_blank_values=True)), p.fragment)


class Sequel:
    """random identifiers of which the first choice is taken already"""

    def __init__(self, orig):
        self.orig, self.taken, self.n = orig, [], 0

    def __call__(self, size=16, *a, **k):
        if size == 16 and self.taken and self.n % 3 == 0:
            self.n += 1
            return self.taken[self.n % len(self.taken)]
        self.n += 1
        return self.orig(size, *a, **k)


class RegistrationSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        rk = {"client_authn_method": None}
        if cfg["life"] == 0:
            rk["client_secret_expires"] = False
        else:
            rk["client_secret_expires_in"] = cfg["life"] * TICK + TICK // 2
        caps = copy.deepcopy(opsys.CAPABILITIES)
        caps["response_types_supported"] = sorted(cfg["rts"])
        self.rnd.shuffle(caps["response_types_supported"])
        if cfg["narrow"]:
            caps["grant_types_supported"] = ["authorization_code", "refresh_token"]
            caps["subject_types_supported"] = ["pairwise"] if self.rnd.random() < .5 else ["public"]
            caps["token_endpoint_auth_methods_supported"] = ["client_secret_post", "client_secret_basic", "client_secret_jwt", "private_key_jwt"]
        self.conf = base_conf("oidc", capabilities=caps, endpoints={"registration": rk})
        self.server = make_server(self.conf, "oidc")
        self.supported = caps
        for i in range(2):
            opsys.add_client(self.server, "old%d" % i, "hemligt_hemligt_hemligt_hemligt_%d" % i)
        if not isinstance(getattr(regmod, "rndstr", None), Sequel) and hasattr(regmod, "rndstr"):
            regmod.rndstr = Sequel(regmod.rndstr)
        if hasattr(regmod, "rndstr"):
            regmod.rndstr.taken = []
        self.secrets, self.rats = set(), set()

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 60

    def begin(self, walk):
        self.n += 1
        self.regs = []
        ctx = self.server.endpoint_context
        sm = ctx.session_manager
        sm.db = type(sm.db)()
        if hasattr(regmod, "rndstr"):
            regmod.rndstr.taken = list(ctx.cdb)

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    # ------------------------------------------------------------- requests
    def published(self, name):
        v = self.server.endpoint_context.provider_info.get(name)
        return v

    def build(self, r):
        rnd = self.rnd
        site, site2 = rnd.choice(SITES)
        port = rnd.randrange(1024, 60000)
        scheme = rnd.choice(["com.example.app", "myapp", "org.example.x-y"])
        path = lambda: "/" + rnd.choice(["cb", "a/b/cb", "cb/", "~x", "c%20b"]) + str(rnd.randrange(1000))
        q = lambda: rnd.choice(["foo=bar", "a=b&c=d", "x=1&x=2", "e=", "z=%C3%A5", "u=a%26b"])

        def uri(k):
            return {"https": lambda: site + path(), "httpsq": lambda: site + path() + "?" + q(), "https2": lambda: site2 + path(),
                    "http": lambda: "http" + site[5:] + path(),
                    "local": lambda: "http://%s:%d%s" % (rnd.choice(["localhost", "127.0.0.1"]), port, path()),
                    "localq": lambda: "http://%s%s?%s" % (rnd.choice(["localhost", "127.0.0.1"]), path(), q()),
                    "custom": lambda: scheme + rnd.choice([":", "://host", "://"]) + path() + rnd.choice(["", "", "?" + q()]),
                    "frag": lambda: site + path() + rnd.choice(["", "?a=b"]) + "#" + rnd.choice(["frag", "/x", "a=b"]),
                    "customfrag": lambda: scheme + "://cb#frag"}[k]()
        uris = [uri(k) for k in r["uris"]]
        rnd.shuffle(uris)
        req = {"redirect_uris": uris}
        if r["app"]:
            req["application_type"] = r["app"]
        if r["rts"]:
            req["response_types"] = list(r["rts"])
            rnd.shuffle(req["response_types"])
        if rnd.random() < .3:
            req["client_name"] = rnd.choice(["App", "\u00c5pp <b>", "x" * 200])
        if rnd.random() < .2:
            req["contacts"] = ["ops@example.com", "other@example.com"][:rnd.choice([1, 2])]
        if rnd.random() < .2:
            req["default_max_age"] = rnd.choice([1, 3600])
        self.raw = None
        for w, h in r["x"]:
            self.feature(req, w, h, site, site2, path, uris)
        return req

    def feature(self, req, w, h, site, site2, path, uris):
        rnd = self.rnd
        if w in ("policy_uri", "logo_uri", "tos_uri"):
            host = urlparse(site).hostname
            req[w] = {"same": site, "second": site2, "otherhost": "https://" + rnd.choice(["evil.example.net", host + ".evil.org", "x" + host]),
                      "otherport": "https://%s:%d" % (host, 9999), "otherscheme": "http" + site[5:],
                      "subdomain": "https://sub." + site[8:]}[h] + rnd.choice(PAGE)
        elif w in PUB:
            good = self.published(PUB[w])
            if w in ("grant_types", "default_acr_values"):
                g = rnd.sample(good, rnd.randrange(1, len(good) + 1))
                b = [rnd.choice(BAD[w])]
                v = {"good": g, "bad": b, "part": g + b}[h]
                rnd.shuffle(v)
                req[w] = v
            elif h == "good":
                good = [x for x in good if w != "subject_type" or x != "ephemeral"]
                req[w] = rnd.choice(good)
            else:
                req[w] = rnd.choice([x for x in BAD[w] if x])
                if w == "subject_type":
                    req[w] = rnd.choice([x for x in ("public", "pairwise", "shared") if x not in good])
        elif w in UA_FIELDS:
            algs, encs = (self.published("%s_%s_values_supported" % (UA_FIELDS[w], x)) for x in ("alg", "enc"))
            if h in ("both", "alg", "badenc"):
                req[w + "_alg"] = rnd.choice(algs)
            if h in ("both", "enc", "badalg"):
                req[w + "_enc"] = rnd.choice(encs)
            if h == "badalg":
                req[w + "_alg"] = rnd.choice(["RSA1", "none", "dir2"])
            if h == "badenc":
                req[w + "_enc"] = rnd.choice(["A128", "none"])
        elif w == "take":
            old = "old0"
            rat = next(iter(self.rats)) if self.rats and rnd.random() < .5 else "mytoken" * 6
            req[h] = {"client_id": rnd.choice([old, "me"]), "client_secret": rnd.choice(["x", "mysecret" * 5]), "registration_access_token": rat,
                      "client_secret_expires_at": rnd.choice([0, CLOCK.now + 10 ** 8, 1]), "client_id_issued_at": 5, "client_salt": "salt",
                      "registration_client_uri": "https://evil.example.net/reg"}[h]
        elif w == "request_uris":
            n = str(rnd.randrange(1000))
            req[w] = {"plain": [site + path()], "frag": [site + path() + "#" + n], "query": [site + path() + "?a=" + n],
                      "two": [site + path(), site2 + path() + "#" + n], "twofrag": [site + path() + "#a#" + n]}[h]
            if h == "query" and rnd.random() < .5:
                req[w].insert(rnd.choice([0, 1]), site + path())
        elif w == "post_logout_redirect_uri":
            req[w] = site + path() + {"plain": "", "query": "?a=b&c=d", "frag": "#x"}[h]
        elif w == "initiate_login_uri":
            req[w] = ("https" if h == "https" else "http") + site[5:] + path()
        elif w == "sector_identifier_uri":
            u = "https://sector.example.com/%d.json" % rnd.randrange(10 ** 9)
            req[w] = u
            t = self.server.endpoint_context.httpc.table
            if h == "all":
                t[u] = json.dumps(rnd.sample(uris, len(uris)))
            elif h == "more":
                t[u] = json.dumps(["https://x.example.com/"] + uris + ["https://y.example.com/cb"])
            elif h == "some":
                t[u] = json.dumps(uris[1:] + [rnd.choice([uris[0] + "x", uris[0][:-1], "https://x.example.com/", uris[0] + "?a=b"])])
            elif h == "empty":
                t[u] = "[]"
            elif h == "html":
                t[u] = rnd.choice(["<html>" + " ".join(uris), "", "[" + ",".join(uris) + "]"])
            elif h == "string":
                t[u] = json.dumps(" ".join(uris))
            elif h == "dict":
                t[u] = json.dumps({x: 1 for x in uris})
        elif w == "keys":
            k = key_of("reg%d" % rnd.randrange(3), rnd.choice(["RSA", "EC"]))
            req["jwks"] = {"keys": [pub_jwk(k)]}
            self.key = k
        elif w == "shape":
            if h == "nouris":
                del req["redirect_uris"]
            elif h == "emptyuris":
                req["redirect_uris"] = []
            elif h == "appother":
                req["application_type"] = rnd.choice(["Web", "service", "spa"])
            elif h == "notjson":
                self.raw = rnd.choice(["redirect_uris=" + quote_plus(uris[0]), "", "[]", "nonsense", '{"redirect_uris":["' + uris[0] + '"]'])
            elif h == "badint":
                req["default_max_age"] = "soon"
            elif h == "blank":
                req["client_uri"] = ""
            elif h == "extras":
                req["x_note"] = "something"
                req["frontchannel_logout_uri"] = site + "/fc"

    # ------------------------------------------------------------- state
    def snap(self):
        ctx = self.server.endpoint_context
        kj = ctx.keyjar
        return {"clients": {c: copy.deepcopy(dict(v)) for c, v in ctx.cdb.items()}, "tokens": dict(ctx.registration_access_token),
                "keys": {o: len(kj.get_issuer_keys(o)) for o in kj.owners() if kj.get_issuer_keys(o)}}

    def do_register(self, l):
        r = l["r"]
        self.key = None
        req = self.build(r)
        before = self.snap()
        body = self.raw if self.raw is not None else (json.dumps(req) if self.rnd.random() < .7 else copy.deepcopy(req))
        res = call(self.server, "registration", body, http_info={"headers": {}, "url": "", "method": "POST"})
        after = self.snap()
        k = l["v"]
        self.stats["reg " + k] = self.stats.get("reg " + k, 0) + 1
        if res[0] != "ok":
            if k == "yes":
                return [Div(T, "registration refused: %s; request %s" % (res[1:], req))]
            if after != before:
                return [Div(T, "a refused registration (%s) leaves traces: %s; request %s" % (res[1:], self.diff(before, after), req))]
            return
        if k == "no":
            return [Div(T, "registration accepted, must be refused: %s -> %s" % (json.dumps(req), res[1]["response_args"].to_dict()))]
        a = res[1]["response_args"].to_dict()
        divs = self.accepted(r, req, a, before, after)
        if k == "yes":
            self.regs.append({"a": a, "r": r, "key": self.key, "req": req})
        return divs

    def diff(self, b, a):
        return {k: sorted(set(map(str, a[k].items())) ^ set(map(str, b[k].items())))[:4] for k in a if a[k] != b[k]}

    def accepted(self, r, req, a, before, after):
        cid, sec, rat = (a.get(k) for k in ("client_id", "client_secret", "registration_access_token"))
        if not (cid and sec and rat and a.get("registration_client_uri")):
            return [Div(T, "the registration response lacks credentials: %s" % a)]
        if cid in before["clients"] or sec in self.secrets or rat in self.rats or len(sec) < 16 or rat in before["tokens"]:
            return [Div(T, "the credentials given out are not new: %s" % a)]
        for k in ("client_id", "client_secret", "registration_access_token", "registration_client_uri"):
            if req.get(k) == a[k]:
                return [Div(T, "the client chose its %s: %s" % (k, a))]
        self.secrets.add(sec)
        self.rats.add(rat)
        if hasattr(regmod, "rndstr") and isinstance(regmod.rndstr, Sequel):
            regmod.rndstr.taken.append(cid)
        for what, new in (("clients", cid), ("tokens", rat)):
            x = dict(after[what])
            x.pop(new, None)
            if x != before[what] or new not in after[what]:
                return [Div(T, "registering %s also changed %s: %s" % (cid, what, self.diff(before, dict(after, **{what: x}))))]
        if {k: v for k, v in after["keys"].items() if k != cid} != before["keys"]:
            return [Div(T, "registering %s changed keys of others: %s" % (cid, self.diff(before, after)))]
        eat = a.get("client_secret_expires_at", 0)
        want = 0 if self.cfg["life"] == 0 else CLOCK.now + self.cfg["life"] * TICK + TICK // 2
        if eat != want:
            return [Div(T, "announced secret expiry %s, must be %s" % (eat, want))]
        if a.get("client_id_issued_at", CLOCK.now) != CLOCK.now:
            return [Div(T, "client_id_issued_at is %s at %s" % (a["client_id_issued_at"], CLOCK.now))]
        for k, v in req.items():
            if k in ("client_id", "client_secret", "registration_access_token", "registration_client_uri", "client_secret_expires_at",
                     "client_id_issued_at", "client_salt", "x_note") or v == "":
                continue
            got = a.get(k)
            if k in ("id_token_signed_response_alg", "userinfo_signed_response_alg") and got is None and not self.has_key(v):
                continue
            if "uri" in k and isinstance(v, (str, list)):
                f = lambda z: [norm(z)] if isinstance(z, str) else [norm(i) for i in z]
                if got is None or f(got) != f(v):
                    return [Div(T, "registered %s %s, was told %s" % (k, v, got))]
            elif got != v:
                return [Div(T, "registered %s %r, was told %r" % (k, v, got))]
        return []

    def has_key(self, alg):
        kj = self.server.endpoint_context.keyjar
        typ = {"R": "RSA", "P": "RSA", "E": "EC", "H": "oct"}[alg[0]]
        crv = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}.get(alg)
        return typ == "oct" or any(k.kty == typ and (crv is None or k.crv == crv) for k in kj.get_issuer_keys(""))

    # ------------------------------------------------------------- use
    def do_read(self, l):
        me = self.regs[l["i"] - 1]["a"]
        tok = self.regs[l["j"] - 1]["a"]["registration_access_token"] if l["j"] else {
            "junk": self.rnd.choice(["x", me["registration_access_token"][:-1], me["registration_access_token"] + "x", "\u00e5"]),
            "none": None, "secret": me["client_secret"], "blank": ""}[l["k"]]
        q = urlparse(me["registration_client_uri"]).query
        if "client_id=" + me["client_id"] not in q:
            return [Div(T, "the registration address %s is not for %s" % (me["registration_client_uri"], me["client_id"]))]
        h = {} if tok is None else {"authorization": "Bearer " + tok}
        r = call(self.server, "registration_read", q, http_info={"headers": h, "url": me["registration_client_uri"], "method": "GET"})
        if r[0] == "ok":
            if l["v"] == "no":
                return [Div(T, "the registration of %s was read with %s" % (
                    me["client_id"], l["k"] or "the token of " + self.regs[l["j"] - 1]["a"]["client_id"]))]
            got = r[1]["response_args"].to_dict()
            if got != me:
                return [Div(T, "reading the registration back: %s, was told %s" % (got, me))]
        elif l["v"] == "yes":
            return [Div(T, "reading the registration back refused: %s" % (r[1:],))]

    def auth(self, body, headers, cid, sec, m, i, url):
        if m == "client_secret_post":
            body.update(client_id=cid, client_secret=sec)
        elif m == "client_secret_basic":
            headers["authorization"] = "Basic " + base64.b64encode(("%s:%s" % (quote_plus(cid), quote_plus(sec))).encode()).decode()
        else:
            if m == "client_secret_jwt":
                key, alg = SYMKey(key=sec), "HS256"
            else:
                key = self.regs[i - 1]["key"]
                alg = "ES256" if key.kty == "EC" else "RS256"
            pl = {"iss": cid, "sub": cid, "aud": [url], "jti": "j%d" % self.rnd.randrange(10 ** 12), "iat": CLOCK.now, "exp": CLOCK.now + 300}
            body["client_assertion"] = JWS(json.dumps(pl), alg=alg).sign_compact([key])
            body["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"

    def do_use(self, l):
        me = self.regs[l["i"] - 1]["a"]
        cid = me["client_id"]
        sec = self.regs[l["j"] - 1]["a"]["client_secret"] if l["j"] else self.rnd.choice(
            [me["client_secret"][:-1], me["client_secret"] + "x", me["registration_access_token"], "hemligt_hemligt_hemligt_hemligt_0", cid])
        eat = me.get("client_secret_expires_at", 0)
        if (l["v"] != "no" and l["i"] == l["j"] and l["m"] != "private_key_jwt") and eat and CLOCK.now > eat:
            return [Div(T, "the announced expiry %s of a secret that must work is past" % eat)]
        code = [t for t in me["response_types"] if t == "code"]
        body, headers = {}, {}
        if code:
            ru = self.rnd.choice(me["redirect_uris"])
            n = self.rnd.randrange(10 ** 9)
            try:
                r = authorize(self.server, "diana", {"client_id": cid, "redirect_uri": ru, "response_type": "code", "scope": "openid", "state": "s%d" % n,
                                                     "nonce": "n%d" % n}, authn_time=CLOCK.now, valid_until=CLOCK.now + 10 ** 6)
            except Exception as e:
                r = ("err", repr(e))
            if r[0] != "ok" or "code" not in r[1]["response_args"]:
                if l["v"] == "yes":
                    return [Div(T, "authorization at the registered %s refused: %s" % (ru, r[1:]))]
                return
            ep = "token"
            body = {"grant_type": "authorization_code", "code": r[1]["response_args"]["code"], "redirect_uri": ru}
        else:
            ep = "introspection"
            body = {"token": "sometoken"}
        self.auth(body, headers, cid, sec, l["m"], l["i"], self.server.server_get("endpoint", ep).full_path)
        r = call(self.server, ep, body, http_info={"headers": headers, "url": "", "method": "POST"})
        self.stats["use " + l["v"]] = self.stats.get("use " + l["v"], 0) + 1
        if r[0] == "ok" and l["v"] == "no":
            return [Div(T, "%s accepts %s of %s for %s (%s)" % (ep, l["m"], "client %d" % l["j"] if l["j"] else "nobody", cid,
                                                                "expires at %s, now %s" % (eat, CLOCK.now)))]
        if r[0] == "ok" and code and me.get("id_token_signed_response_alg"):
            from cryptojwt.jws.jws import factory
            got = factory(r[1]["response_args"]["id_token"]).jwt.headers["alg"]
            if got != me["id_token_signed_response_alg"]:
                return [Div(T | {"C16"}, "ID token signed with %s, the client was told %s" % (got, me["id_token_signed_response_alg"]))]
        if r[0] != "ok" and l["v"] == "yes":
            return [Div(T, "%s refuses %s of the registered client: %s" % (ep, l["m"], r[1:]))]

    def do_tick(self, l):
        CLOCK.advance(TICK)

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, "oidc")
