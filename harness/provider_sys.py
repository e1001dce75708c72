"""Drives real servers along behaviours of spec/Provider.tla."""
import json, random
from urllib.parse import urlencode
import opsys
from opsys import CLOCK, call, make_server, base_conf, add_client, reload_server, JWT, KeyJar, authorize
from engine import Div
from cryptojwt.jws.jws import JWS, SIGNER_ALGS, factory
from cryptojwt.jwk.hmac import SYMKey
from clientauth_sys import key_of, pub_jwk
import dpop_sys

T = {"C27"}
SECRET = "hemligt_hemligt_hemligt_hemligt_1"
SIG = ["RS256", "ES256", "HS256"]
ALGS = {"es": ["ES256"], "rs": ["RS256", "HS256"]}
RTS = {"code": ["code"], "hybrid": ["code", "code id_token"]}
ACR = {"a1": "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword", "a2": "https://refeds.org/profile/mfa"}
METADATA = {"registration": "registration_endpoint", "authorization": "authorization_endpoint", "token": "token_endpoint",
            "introspection": "introspection_endpoint", "userinfo": "userinfo_endpoint", "session": "end_session_endpoint",
            "pushed_authorization": "pushed_authorization_request_endpoint"}
REDIR = "https://client.example.com/cb"


class ProviderSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        self.issuer = self.rnd.choice(["https://op.example.org", "https://op.example.org/tenant/one", "https://op.example.org:8443"])
        if cfg["slash"]:
            self.issuer += "/"
        self.conf = self.make_conf(cfg, self.issuer)
        self.server = self.build(self.conf)
        self.clients()

    def build(self, conf):
        from oidcop.server import Server
        from oidcop.configure import OPConfiguration
        from opsys import op_keyjar, FakeHTTP, SCRATCH
        kj = op_keyjar()
        kj.import_jwks(kj.export_jwks(True, ""), conf["issuer"])
        return Server(OPConfiguration(conf=json.loads(json.dumps(conf)), base_path=SCRATCH), cwd=SCRATCH, keyjar=kj, httpc=FakeHTTP())

    def make_conf(self, cfg, issuer):
        rnd = self.rnd
        caps = {"subject_types_supported": ["public", "pairwise"],
                "grant_types_supported": ["authorization_code", "implicit"] + (["refresh_token"] if cfg["refresh"] else [])}
        eps = {"token": {"client_authn_method": rnd.sample(sorted(cfg["auth"]), len(cfg["auth"]))}}
        az = {}
        idkw = {}
        if cfg["rts"] != "default":
            (caps if rnd.random() < .5 else az)["response_types_supported"] = RTS[cfg["rts"]]
        if cfg["requri"] != "unsaid":
            (caps if rnd.random() < .5 else az)["request_uri_parameter_supported"] = cfg["requri"] == "yes"
        if cfg["idalgs"] != "default":
            idkw["id_token_signing_alg_values_supported"] = ALGS[cfg["idalgs"]]
        if az:
            eps["authorization"] = dict(az, client_authn_method=None)
        if cfg["uialgs"] != "default" and "userinfo" in cfg["eps"]:
            if rnd.random() < .5:
                caps["userinfo_signing_alg_values_supported"] = ALGS[cfg["uialgs"]]
            else:
                eps["userinfo"] = {"userinfo_signing_alg_values_supported": ALGS[cfg["uialgs"]]}
        if "discovery" in cfg["eps"]:
            eps["discovery"] = {"path": ".well-known/webfinger", "class": "oidcop.oidc.discovery.Discovery", "kwargs": {"client_authn_method": None}}
        addon = {}
        if cfg["dpop"] != "off":
            kw = {} if cfg["dpop"] == "default" else {"dpop_signing_alg_values_supported": {"es": ["ES256"], "both": ["ES256", "RS256"]}[cfg["dpop"]]}
            addon["dpop"] = {"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": kw}
        authn = {a: {"acr": ACR[a], "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}} for a in sorted(cfg["acrs"])}
        rules = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1, "expires_in": 10 ** 6},
                 "access_token": {"expires_in": 10 ** 6},
                 "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"], "expires_in": 10 ** 6}}
        conf = base_conf("oidc", usage_rules=rules, capabilities=caps, endpoints=eps, add_on=addon, id_token_kwargs=idkw, authentication=authn)
        conf["issuer"] = issuer
        self.uri_path = rnd.choice(["jwks.json", "static/jwks.json"])
        conf["keys"] = dict(conf["keys"], uri_path=self.uri_path)
        if "session" in conf["endpoint"] and cfg["iframe"] != "off":
            conf["endpoint"]["session"]["kwargs"]["check_session_iframe"] = {"abs": issuer.rstrip("/") + "/check.html",
                                                                            "rel": rnd.choice(["check.html", "/check.html"])}[cfg["iframe"]]
        for e in METADATA.keys() | {"registration_read"}:
            if e not in cfg["eps"]:
                conf["endpoint"].pop(e, None)
            elif rnd.random() < .5:
                conf["endpoint"][e]["path"] = e.replace("_", rnd.choice(["/", "-"])) + "_x"
        order = list(conf["endpoint"].items())
        rnd.shuffle(order)
        conf["endpoint"] = dict(order)
        return conf

    def clients(self):
        ctx = self.server.endpoint_context
        add_client(self.server, "c1", SECRET, redirect_uris=[(REDIR, {})], request_uris=[("https://client.example.com/req", {})])
        ctx.keyjar.import_jwks({"keys": [pub_jwk(key_of("c1", "RSA"))]}, "c1")

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 10

    def begin(self, walk):
        self.n += 1

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    def do_reload(self, l):
        old = self.server
        try:
            store = old.endpoint_context.dump()
            store.pop("conf", None)
            new = self.build(self.conf)
            ctx = new.endpoint_context
            ctx.load(store, init_args={"server_get": new.server_get, "handler": ctx.session_manager.token_handler})
        except Exception as e:
            return [Div({"C21"}, "dump and reload fails: %r" % e)]
        self.server = new

    def do_another(self, l):
        """one with everything different"""
        other = dict(self.cfg)
        other["eps"] = sorted({"authorization", "token", "registration"} | (set(METADATA) - set(self.cfg["eps"])))
        other["auth"] = self.rnd.choice([["client_secret_post"], ["private_key_jwt", "client_secret_basic"]])
        other.update(refresh=not self.cfg["refresh"], dpop="both" if self.cfg["dpop"] == "off" else "off", idalgs="rs" if self.cfg["idalgs"] == "es" else "es",
                     uialgs="es", rts="code" if self.cfg["rts"] != "code" else "default", requri="no" if self.cfg["requri"] != "no" else "yes",
                     acrs=["a2"] if "a1" in self.cfg["acrs"] else ["a1"])
        path = self.uri_path
        other = self.build(self.make_conf(other, "https://other.example.net"))
        self.uri_path = path
        call(other, "provider_config", {})
        if "registration" in other.endpoint:
            call(other, "registration", json.dumps({"redirect_uris": ["https://x.example.net/cb"]}))

    def metadata(self):
        """the answer as it goes out"""
        r = call(self.server, "provider_config", {}, http_info={"headers": {}})
        if r[0] != "ok":
            return None
        return json.loads(self.server.server_get("endpoint", "provider_config").do_response(request=r[2], **r[1])["response"])

    def url(self, path):
        return self.issuer.rstrip("/") + "/" + path.lstrip("/")

    def do_discover(self, l):
        w = l["want"]
        m = self.metadata()
        if m is None:
            return [Div(T, "the provider configuration endpoint refuses")]
        divs = []

        def same(what, got, want):
            if got != want:
                divs.append(Div(T, "announced %s: %s, it should be %s" % (what, got, want)))
        same("issuer", m.get("issuer"), self.issuer)
        for e, name in METADATA.items():
            want = self.url(self.conf["endpoint"][e]["path"]) if w["eps"][name] else None
            same(name, m.get(name), want)
        same("other endpoints", sorted(k for k in m if k.endswith("_endpoint") and k not in METADATA.values()), [])
        same("token endpoint authentication methods", sorted(m.get("token_endpoint_auth_methods_supported", [])), sorted(w["auth"]))
        same("DPoP algorithms", sorted(m.get("dpop_signing_alg_values_supported", [])), sorted(w["dpop"]))
        for f, k in (("id_token_signing_alg_values_supported", "idalgs"), ("userinfo_signing_alg_values_supported", "uialgs")):
            got = m.get(f, [])
            same(f, sorted(a for a in got if a in SIG or self.cfg[k] != "default"), sorted(w[k]))
            same("'none' in " + f, "none" in got, False)
        same("response types", sorted(" ".join(sorted(x.split())) for x in m.get("response_types_supported", [])), sorted(" ".join(sorted(x.split())) for x in w["rts"]))
        same("grant types", sorted(set(m.get("grant_types_supported", [])) - {"implicit"}), sorted(w["grants"]))
        same("request_uri", m.get("request_uri_parameter_supported", True), w["requri"])
        same("acr values", sorted(m.get("acr_values_supported", [])), sorted(ACR[a] for a in w["acrs"]))
        same("jwks_uri", m.get("jwks_uri"), self.url(self.uri_path))
        same("check_session_iframe", m.get("check_session_iframe"), self.url("check.html") if w["iframe"] else None)
        for f in ("frontchannel_logout_supported", "frontchannel_logout_session_supported", "backchannel_logout_supported", "backchannel_logout_session_supported"):
            same(f, m.get(f, False), w["logout"])
        return divs

    def do_webfinger(self, l):
        res = self.rnd.choice(["acct:carol@op.example.org", "https://op.example.org/carol", "acct:\u00e5@x.example"])
        r = call(self.server, "discovery", {"resource": res, "rel": "http://openid.net/specs/connect/1.0/issuer"}, http_info={"headers": {}})
        if r[0] != "ok":
            return [Div(T, "webfinger refuses: %s" % (r[1:],))]
        a = json.loads(self.server.server_get("endpoint", "discovery").do_response(request=r[2], **r[1])["response"])
        if a.get("subject") != res or [(x["rel"], x["href"]) for x in a.get("links", [])] != [("http://openid.net/specs/connect/1.0/issuer", self.issuer)]:
            return [Div(T, "webfinger for %s answers %s" % (res, a))]

    def published(self):
        return self.server.endpoint_context.keyjar.export_jwks(False, "")

    def do_keys(self, l):
        for k in self.published()["keys"]:
            if k["kty"] == "oct" or {"d", "p", "q", "k", "dp", "dq", "qi"} & set(k):
                return [Div(T, "the published keys hold private parts")]

    # ------------------------------------------------------------------
    def code(self, cid="c1", redir=REDIR, **kw):
        q = dict({"client_id": cid, "redirect_uri": redir, "response_type": "code", "scope": "openid offline_access", "prompt": "consent", "state": "s", "nonce": "n"}, **kw)
        r = authorize(self.server, "diana", q, authn_time=CLOCK.now, valid_until=CLOCK.now + 10 ** 6)
        return r

    def redeem(self, code, cid="c1", secret=SECRET, m=None, redir=REDIR, headers=None):
        """at the token endpoint, authenticating by method m (one that is announced if none is named)"""
        ep = self.server.server_get("endpoint", "token")
        m = m or self.rnd.choice(sorted(self.cfg["auth"]))
        req = {"grant_type": "authorization_code", "code": code, "redirect_uri": redir}
        h = dict(headers or {})
        if m == "client_secret_post":
            req.update(client_id=cid, client_secret=secret)
        elif m == "client_secret_basic":
            import base64
            h["authorization"] = "Basic " + base64.b64encode(("%s:%s" % (cid, secret)).encode()).decode()
        else:
            key, alg = (key_of("c1", "RSA"), "RS256") if m == "private_key_jwt" else (SYMKey(key=secret, use="sig", alg="HS256"), "HS256")
            p = {"iss": cid, "sub": cid, "aud": [ep.full_path], "jti": "j%d" % self.rnd.randrange(10 ** 12), "iat": CLOCK.now, "exp": CLOCK.now + 600}
            req.update(client_assertion=JWS(json.dumps(p), alg=alg).sign_compact([key]), client_assertion_type="urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
        return call(self.server, "token", json.dumps(req), http_info={"headers": h, "url": ep.full_path, "method": "POST"})

    def headers(self, alg=None):
        if self.cfg["dpop"] == "off" and alg is None:
            return {}
        alg = alg or self.rnd.choice({"default": ["RS256"], "es": ["ES256"], "both": ["RS256", "ES256"]}[self.cfg["dpop"]])
        k = {"RS256": "r1", "ES256": "e1"}[alg]
        url = self.server.server_get("endpoint", "token").full_path
        hdr = {"typ": "dpop+jwt", "alg": alg, "jwk": dpop_sys.jwk_of(k)}
        b64 = dpop_sys.b64
        msg = "%s.%s" % (b64(json.dumps(hdr).encode()), b64(json.dumps({"jti": "j%d" % self.rnd.randrange(10 ** 12), "htm": "POST", "htu": url, "iat": CLOCK.now}).encode()))
        return {"dpop": msg + "." + b64(SIGNER_ALGS[alg].sign(msg.encode(), dpop_sys.key(k).private_key()))}

    def do_auth(self, l):
        r = self.code()
        if r[0] != "ok":
            return [Div(T, "authorization refused: %s" % (r[1:],))]
        r = self.redeem(r[1]["response_args"]["code"], m=l["m"], headers=self.headers())
        if (r[0] == "ok") != l["ok"]:
            return [Div(T, "token endpoint, %s which is %sannounced: %s" % (l["m"], "" if l["ok"] else "not ", r[:3] if r[0] == "err" else "accepted"))]

    def do_proof(self, l):
        r = self.code()
        if r[0] != "ok":
            return [Div(T, "authorization refused: %s" % (r[1:],))]
        r = self.redeem(r[1]["response_args"]["code"], headers=self.headers(l["alg"]))
        if (r[0] == "ok") != l["ok"]:
            return [Div(T, "DPoP proof with %s: %s" % (l["alg"], r[:3] if r[0] == "err" else "accepted"))]
        if l["ok"] and (r[1]["response_args"].get("token_type") == "DPoP") != l["bound"]:
            return [Div(T, "DPoP proof with %s: token of type %s" % (l["alg"], r[1]["response_args"].get("token_type")))]

    def verify(self, tok, what, algs=None, secret=SECRET):
        """with the published keys (or the client's secret) only"""
        h = factory(tok).jwt.headers
        if algs is not None and h["alg"] not in algs:
            return [Div(T, "%s signed with %s, announced are %s" % (what, h["alg"], algs))]
        kj = KeyJar()
        kj.import_jwks(self.published(), self.issuer)
        if h["alg"][:2] == "HS":
            kj.add_symmetric(self.issuer, secret, ["sig"])
        try:
            p = JWT(key_jar=kj, iss="c1", allowed_sign_algs=[h["alg"]]).unpack(tok)
        except Exception as e:
            return [Div(T, "%s does not verify with the published keys: %r" % (what, e))]
        if p.get("iss") != self.issuer:
            return [Div(T, "%s: issuer %s, announced %s" % (what, p.get("iss"), self.issuer))]
        return []

    def do_flow(self, l):
        r = self.code()
        if r[0] != "ok":
            return [Div(T, "authorization refused: %s" % (r[1:],))]
        if r[1]["response_args"].get("iss", self.issuer) != self.issuer:
            return [Div(T, "the authorization response is from %s" % r[1]["response_args"]["iss"])]
        r = self.redeem(r[1]["response_args"]["code"], headers=self.headers())
        if r[0] != "ok":
            return [Div(T, "no tokens: %s" % (r[1:],))]
        a = r[1]["response_args"]
        divs = self.verify(a["id_token"], "ID token", l["algs"] if self.cfg["idalgs"] != "default" else None) + self.verify(a["access_token"], "access token")
        if ("refresh_token" in a) != l["refresh"]:
            divs.append(Div(T, "refresh tokens are %sannounced and %sgiven" % ("" if l["refresh"] else "not ", "" if "refresh_token" in a else "not ")))
        return divs

    def do_requri(self, l):
        ctx = self.server.endpoint_context
        q = {"client_id": "c1", "redirect_uri": REDIR, "response_type": "code", "scope": "openid", "state": "s", "nonce": "n"}
        obj = JWS(json.dumps(dict(q, iss="c1", aud=self.issuer)), alg="RS256").sign_compact([key_of("c1", "RSA")])
        ctx.httpc.table["https://client.example.com/req"] = obj
        n = len(ctx.httpc.gets)
        r = self.code(request_uri="https://client.example.com/req", scope="openid")
        if (r[0] == "ok") != l["ok"]:
            return [Div(T, "request_uri is %sannounced: %s" % ("" if l["ok"] else "not ", r[:3] if r[0] == "err" else "accepted"))]
        if not l["ok"] and len(ctx.httpc.gets) > n:
            return [Div(T, "request_uri is not announced but fetched")]

    def do_register(self, l):
        f, v = l["f"], l["v"]
        uri = "https://new.example.com/cb"
        req = {"redirect_uris": [uri]}
        req[f] = [v] if f in ("response_types", "grant_types") else v
        r = call(self.server, "registration", json.dumps(req))
        if not l["ok"]:
            if r[0] == "ok":
                got = r[1]["response_args"].to_dict().get(f) if hasattr(r[1]["response_args"], "to_dict") else r[1]["response_args"].get(f)
                if got == req[f]:
                    return [Div(T, "registration gives %s=%s, which is not announced" % (f, v))]
            return []
        if r[0] != "ok":
            return [Div(T, "registration refuses %s=%s, which is announced: %s" % (f, v, r[1:]))]
        ra = r[1]["response_args"]
        got = ra.get(f)
        norm = lambda x: [" ".join(sorted(y.split())) for y in ([x] if isinstance(x, str) else x or [])]
        if norm(got) != norm(v):
            return [Div(T, "registration asked for %s=%s, which is announced, gives %s" % (f, v, got))]
        cid, sec = ra["client_id"], ra["client_secret"]
        # it works
        if f == "id_token_signed_response_alg":
            r = self.code(cid, uri)
            if r[0] == "ok":
                m = self.rnd.choice([x for x in sorted(self.cfg["auth"]) if x != "private_key_jwt"] or [None])
                if m is None:
                    return []
                r = self.redeem(r[1]["response_args"]["code"], cid, sec, m, uri, self.headers())
            if r[0] != "ok":
                return [Div(T, "a client registered with %s=%s gets no tokens: %s" % (f, v, r[1:]))]
            return self.verify(r[1]["response_args"]["id_token"], "ID token", [v], sec)
        if f == "response_types":
            r = self.code(cid, uri, response_type=v)
            if r[0] != "ok":
                return [Div(T, "a client registered with %s=%s can not use it: %s" % (f, v, r[1:]))]
        if f == "token_endpoint_auth_method" and v != "private_key_jwt":
            r = self.code(cid, uri)
            r = self.redeem(r[1]["response_args"]["code"], cid, sec, v, uri, self.headers())
            if r[0] != "ok":
                return [Div(T, "a client registered with %s=%s can not use it: %s" % (f, v, r[1:]))]
