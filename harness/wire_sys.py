"""Drives real servers along behaviours of spec/Wire.tla."""
import json, random
from urllib.parse import urlencode
import opsys, wire
from opsys import CLOCK, call, make_server, base_conf, add_client, ISS, is_error, reload_server, KeyJar, create_authn_event
from engine import Div
from cryptojwt.jws.jws import factory
from cryptojwt.jwt import JWT
from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.key_jar import build_keyjar

T = {"C29"}
TICK = 1000
SECRET = ["hemligt_hemligt_hemligt_hemligt_1", "hemligt/hemligt+hemligt=hemligt&2"]
ODD = ["&", "=", "#x", "a b", "%41", "+", "\u00e5\u4e2d", "\"><script>", "'", "a&code=x", "<b>", "?", "a;b", "\\", "{}", "\U0001f600", "//", "null", "%00", "%0d%0aX: y", "&amp;", "&#34;", "&lt"]
_keys = None


def client_keys():
    global _keys
    if _keys is None:
        _keys = [build_keyjar([{"type": "RSA", "use": ["enc"]}, {"type": "EC", "crv": "P-256", "use": ["enc"]}]) for _ in range(2)]
    return _keys


class WireSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        rnd = self.rnd
        self.db = {u: self.attributes(n) for u, n in (("diana", "Diana"), ("bob", "Bob"))}
        self.user = {"u1": "diana", "u2": "bob"}
        rules = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1, "expires_in": 10 ** 7},
                 "access_token": {"expires_in": TICK + TICK // 2},
                 "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"], "expires_in": 10 ** 7}}
        self.extra = {"x_issuer": "issuer", "x_keys": "jwks_uri"} if cfg["extra"] else {}
        self.conf = base_conf("oidc", usage_rules=rules, grant_expires_in=10 ** 8, code_lifetime=10 ** 7, refresh_lifetime=10 ** 7, userinfo_kwargs={"claims_parameter_supported": True},
                              add_on={"extra_args": {"function": "oidcop.oauth2.add_on.extra_args.add_support", "kwargs": {"authorization": self.extra}}} if cfg["extra"] else None,
                              token_kind=rnd.choice(["jwt", "opaque"]),
                              extra={"userinfo": {"class": "oidcop.user_info.UserInfo", "kwargs": {"db": self.db}}})
        self.server = make_server(self.conf, "oidc")
        self.uri, self.enc = {}, {}
        for i, ui in enumerate(cfg["ui"], 1):
            c = "c%d" % i
            kw = {}
            if ui in ("RS256", "ES256", "HS256"):
                kw["userinfo_signed_response_alg"] = ui
            if ui == "encsig":
                kw["userinfo_signed_response_alg"] = "RS256"
            if ui.startswith("enc"):
                alg, enc = rnd.choice([("RSA-OAEP", "A128CBC-HS256"), ("RSA-OAEP-256", "A256GCM"), ("ECDH-ES", "A128GCM"), ("RSA-OAEP", "A256CBC-HS512")])
                kw.update(userinfo_encrypted_response_alg=alg, userinfo_encrypted_response_enc=enc)
                self.enc[i] = (alg, enc)
            q = rnd.choice([{}, {}, {"foo": ["bar"]}, {"a": ["b c"], "\u00e5": ["1"]}])
            base = rnd.choice(["https://%s.example.com/cb" % c, "https://%s.example.com" % c, "https://%s.example.com/a/b.c~d/" % c])
            self.uri[i] = base + ("?" + urlencode(q, doseq=True) if q else "")
            add_client(self.server, c, SECRET[i - 1], redirect_uris=[(base, q)], **kw)
            self.server.endpoint_context.keyjar.import_jwks(client_keys()[i - 1].export_jwks(False, ""), c)

    def attributes(self, name):
        rnd = self.rnd
        odd = lambda: name + rnd.choice(ODD) + rnd.choice(ODD)
        return {"name": odd(), "given_name": odd(), "family_name": rnd.choice(ODD), "nickname": odd(), "email": name.lower() + "@example.org", "email_verified": rnd.random() < .5,
                "updated_at": rnd.choice([0, 1, 1600000000]), "address": {"street_address": odd() + "\n2", "locality": odd()}, "phone_number": "+46 90 " + str(rnd.randrange(10)),
                "phone_number_verified": False, "groups": [odd(), odd()], "level": rnd.choice([7, 0]), "height": 1.5, "deep": {"a": [1, {"b": odd()}]}, "vip": True, "none": None,
                "odd name": odd(), "x:y/z": odd(), "iss": "https://evil.example.org", "aud": ["c9"], "iat": 5, "exp": 6, "sub": "nobody", "acr": "urn:best", "jti": "1"}

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 25

    def begin(self, walk):
        self.n += 1
        self.s = []
        sm = self.server.endpoint_context.session_manager
        sm.db = type(sm.db)()
        if opsys.WIRE is None:
            opsys.WIRE = []

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    def do_tick(self, l):
        CLOCK.advance(TICK)

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, "oidc", plain=True)

    def auth(self, c):
        return {"client_id": "c%d" % c, "client_secret": SECRET[c - 1]}

    def request(self, l):
        rnd = self.rnd
        q = {"client_id": "c%d" % l["c"], "redirect_uri": self.uri[l["c"]], "response_type": " ".join(l["rt"]), "scope": "openid offline_access", "prompt": "consent",
             "nonce": "n%d" % rnd.randrange(10 ** 9)}
        if l["st"] != "none":
            q["state"] = "st%d" % rnd.randrange(10 ** 9) if l["st"] == "text" else "".join(rnd.choice(ODD) for _ in range(rnd.randrange(1, 5)))
        if l["mode"]:
            q["response_mode"] = l["mode"]
        return q

    def check(self, out, q, l, want, what, more, places=None):
        ep = self.server.server_get("endpoint", "authorization")
        bad = wire.headers(out, what)[0]
        s = wire.split(out, ep, q["redirect_uri"])
        if s is None:
            return [Div(T, "%s: the answer does not go to %s: %s" % (what, q["redirect_uri"], out["response"]))]
        if s[0] not in (places or {l["place"]}):
            bad.append("%s: the answer is in the %s, not in the %s" % (what, s[0], places or l["place"]))
        if len(s[1]) != len(dict(s[1])):
            bad.append("%s: repeated parameters: %s" % (what, s[1]))
        if self.extra and not (l["a"] == "deny" or s[0] == "form"):
            want = dict(want, x_issuer=ISS, x_keys=self.server.endpoint_context.jwks_uri)
        bad += wire.compare(want, dict(s[1]), what, True, more)
        if "state" in q and dict(s[1]).get("state") != q["state"] or "state" not in q and "state" in dict(s[1]):
            bad.append("%s: state %r, it was %r" % (what, dict(s[1]).get("state"), q.get("state")))
        return [Div(T, x) for x in bad]

    def do_authorize(self, l):
        rnd = self.rnd
        q = self.request(l)
        if l["kind"] == "plain":
            q["scope"] += " profile email address phone"
        else:
            names = {"clash": ["iss", "aud", "iat", "exp", "sub", "acr", "jti"], "odd": ["groups", "level", "height", "deep", "vip", "none", "odd name", "x:y/z", "name"]}[l["kind"]]
            q["claims"] = json.dumps({"userinfo": {n: rnd.choice([None, {"essential": True}]) for n in names}})
        ep = self.server.server_get("endpoint", "authorization")
        ctx = self.server.endpoint_context
        what = "authorization, response_type=%s response_mode=%s" % (q["response_type"], l["mode"])
        req = ep.parse_request(dict(q) if rnd.random() < .5 else urlencode(q), http_info={"headers": {}})
        if is_error(req):
            return [Div(T, "%s state=%r: refused %s" % (what, q.get("state"), req))]
        user = self.user[l["u"]]
        ev = create_authn_event(user, authn_info="pwd", authn_time=CLOCK.now, valid_until=CLOCK.now + 10 ** 7)
        sid = ctx.session_manager.create_session(ev, req, user, client_id=req["client_id"], sub_type="public", token_usage_rules=ctx.authz.usage_rules(req["client_id"]))
        info = ep.authz_part2(req, sid)
        if is_error(info):
            return [Div(T, "%s: %s" % (what, info))]
        grant = ctx.session_manager.get_grant(sid)
        out = ep.do_response(request=req, **info)
        kind = {"authorization_code": "code", "access_token": "access_token", "id_token": "id_token"}
        want = {kind[t.token_class]: t.value for t in grant.issued_token}
        want.update(iss=ISS, client_id=q["client_id"])
        if set(want) != {"iss", "client_id"} | {{"token": "access_token"}.get(x, x) for x in l["rt"]}:
            return [Div(T, "%s: tokens %s" % (what, sorted(want)))]
        ds = self.check(out, q, l, want, what, ("state", "scope", "token_type", "expires_in", "session_state"))
        if "code" in l["rt"]:
            self.s.append({"code": want["code"], "c": l["c"], "u": user, "uri": q["redirect_uri"], "grant": grant, "at": None, "rt": None})
        return ds

    def do_deny(self, l):
        q = self.request(l)
        if l["why"] == "login":
            del q["prompt"]
            q["prompt"], q["scope"] = "none", "openid"
        else:
            q["prompt"], q["scope"] = "none login", "openid"
        ep = self.server.server_get("endpoint", "authorization")
        method = next(iter(self.server.endpoint_context.authn_broker))
        what = "denied (%s), response_type=%s response_mode=%s" % (l["why"], q["response_type"], l["mode"])
        asked = method.authenticated_as
        method.authenticated_as = lambda *a, **kw: (None, 0)
        try:
            req = ep.parse_request(dict(q) if self.rnd.random() < .5 else urlencode(q), http_info={"headers": {}})
            if is_error(req):
                if l["why"] == "login":
                    return [Div(T, "%s: refused %s" % (what, req))]
                d = json.loads(req.to_json())        # as the front end does it
                return [Div(T, "%s: %s" % (what, d))] if set(d) & set(wire.SECRETS) or "error" not in d else None
            res = ep.process_request(req, http_info={"headers": {}})
        except Exception:
            if l["why"] == "login":
                raise
            return
        finally:
            method.authenticated_as = asked
        if not is_error(res) and "response_msg" not in res:
            return [Div(T, "%s: not denied: %s" % (what, res))]
        out = ep.do_response(request=req, **res)
        return self.check(out, q, l, {"error": "login_required"} if l["why"] == "login" else {}, what, ("state", "error", "error_description", "error_uri", "iss", "client_id"),
                          {"form", "query" if l["rt"] == ["code"] else "fragment"} if l["mode"] else None)

    def got(self, s, r, what):
        if r[0] != "ok":
            return [Div(T, "%s refused: %s" % (what, r))]
        ra = r[1]["response_args"]
        s["at"], s["rt"] = ra["access_token"], ra.get("refresh_token") or s["rt"]

    def do_redeem(self, l):
        s = self.s[l["s"] - 1]
        return self.got(s, call(self.server, "token", dict(self.auth(s["c"]), grant_type="authorization_code", code=s["code"], redirect_uri=s["uri"])), "redemption")

    def do_refresh(self, l):
        s = self.s[l["s"] - 1]
        return self.got(s, call(self.server, "token", dict(self.auth(s["c"]), grant_type="refresh_token", refresh_token=s["rt"])), "refresh")

    def do_look(self, l):
        s = self.s[l["s"] - 1]
        r = call(self.server, "introspection", dict(self.auth(s["c"]), token=s["at"]))
        if r[0] != "ok":
            return [Div(T, "introspection refused: %s" % (r,))]
        d = json.loads(self.server.server_get("endpoint", "introspection").do_response(request=r[2], **r[1])["response"])
        if d.get("active") is not l["ok"]:
            return [Div(T, "introspection: active %r, should be %s" % (d.get("active"), l["ok"]))]
        if not l["ok"] and set(d) != {"active"}:
            return [Div(T, "introspection of a dead token says %s" % d)]

    def do_info(self, l):
        s = self.s[l["s"] - 1]
        ep = self.server.server_get("endpoint", "userinfo")
        ctx = self.server.endpoint_context
        r = call(self.server, "userinfo", {}, http_info={"headers": {"authorization": "Bearer " + s["at"]}})
        if not l["ok"]:
            return [] if r[0] == "err" else [Div(T, "userinfo for a dead token")]
        f = l["f"]
        what = "userinfo (%s)" % self.cfg["ui"][s["c"] - 1]
        if r[0] != "ok":
            return [Div(T, "%s: refused %s" % (what, r))]
        try:
            out = ep.do_response(request=r[2], **r[1])
        except Exception as e:
            return [Div(T, "%s: can not be sent: %r" % (what, e))]
        bad, ct = wire.headers(out, what)
        body = out["response"]
        if ct != ("application/jwt" if f["sig"] or f["enc"] else "application/json"):
            return [Div(T, "%s: content type %s" % (what, ct))]
        cid = "c%d" % s["c"]
        if f["enc"]:
            alg, enc = self.enc[s["c"]]
            if body.count(".") != 4:
                return [Div(T, "%s: not encrypted: %s" % (what, body))]
            j = jwe_factory(body)
            if (j.jwt.headers.get("alg"), j.jwt.headers.get("enc")) != (alg, enc):
                bad.append("%s: encrypted with %s, agreed on %s %s" % (what, j.jwt.headers, alg, enc))
            keys = client_keys()[s["c"] - 1].get_issuer_keys("")
            try:
                body = j.decrypt(body, keys)
            except Exception as e:
                return [Div(T, "%s: the client can not decrypt the answer: %r" % (what, e))]
            if isinstance(body, bytes):
                body = body.decode()
        more = ()
        if f["sig"]:
            kj = KeyJar()
            kj.import_jwks(ctx.keyjar.export_jwks(False, ""), ISS)
            if f["sig"] == "HS256":
                kj.add_symmetric(ISS, SECRET[s["c"] - 1], ["sig"])
            j = factory(body)
            if not j or j.jwt.headers.get("alg") != f["sig"]:
                return [Div(T, "%s: not signed with %s: %s" % (what, f["sig"], j and j.jwt.headers))]
            try:
                d = JWT(kj, iss=cid, allowed_sign_algs=[f["sig"]]).unpack(body)
            except Exception as e:
                return [Div(T, "%s: signature: %r" % (what, e))]
            if d.get("iss") != ISS or d.get("aud") not in (None, cid, [cid]):
                bad.append("%s: issuer %s, audience %s" % (what, d.get("iss"), d.get("aud")))
            d = factory(body).jwt.payload()
        else:
            try:
                d = json.loads(body)
            except ValueError:
                return [Div(T, "%s: not JSON: %r" % (what, body))]
        if d.get("sub") != s["grant"].sub:
            bad.append("%s: subject %s, it is %s" % (what, d.get("sub"), s["grant"].sub))
        spec = ("iss", "aud", "iat", "exp", "sub", "acr", "jti", "kid")
        for k, v in d.items():
            if k not in spec and not wire.same(self.db[s["u"]].get(k), v, False):
                bad.append("%s: %s is %r, the answer says %r" % (what, k, self.db[s["u"]].get(k), v))
        must = {"plain": ["name", "given_name", "family_name", "nickname", "email", "email_verified", "address", "phone_number", "phone_number_verified", "updated_at"],
                "odd": ["groups", "level", "height", "deep", "vip", "odd name", "x:y/z", "name"], "clash": []}[l["kind"]]
        for k in must:
            if k not in d:
                bad.append("%s: %s is missing from the answer: %s" % (what, k, sorted(d)))
        return [Div(T, x) for x in bad]

    def do_wrong(self, l):
        rnd = self.rnd
        w, a = l["w"], self.auth(l["c"])
        if w == "secret":
            r = call(self.server, rnd.choice(["token", "introspection", "pushed_authorization"]), dict(a, client_secret="x" + SECRET[0], grant_type="authorization_code", code="x", token="x"))
        elif w == "code":
            r = call(self.server, "token", dict(a, grant_type="authorization_code", code=rnd.choice(ODD), redirect_uri=self.uri[l["c"]]))
        elif w == "granttype":
            r = call(self.server, "token", dict(a, grant_type=rnd.choice(ODD), code="x"))
        elif w == "refresh":
            r = call(self.server, "token", dict(a, grant_type="refresh_token", refresh_token=rnd.choice(ODD)))
        elif w == "usertoken":
            r = call(self.server, "userinfo", {}, http_info={"headers": {"authorization": "Bearer " + rnd.choice(["x", "a.b.c", "\u00e5"])}})
        elif w == "regtoken":
            r = call(self.server, "registration_read", {"client_id": a["client_id"]}, http_info={"headers": {"authorization": "Bearer x"}})
        elif w == "reguri":
            r = call(self.server, "registration", {"redirect_uris": ["https://x.example.com/cb#" + rnd.choice(["a", "b&c"])], "response_types": ["code"]})
        elif w == "paruri":
            r = call(self.server, "pushed_authorization", dict(a, redirect_uri="https://evil.example.com/" + rnd.choice(ODD), response_type="code", scope="openid", state="s", nonce="n"))
        else:
            s = [x for x in self.s if x["c"] == l["c"] and x["at"]]
            r = call(self.server, "token", dict(a, grant_type="authorization_code", code=s[0]["code"], redirect_uri=s[0]["uri"]))
        if r[0] == "ok" and w not in ("paruri",):
            return [Div(T, "a request with a wrong %s is answered: %s" % (w, r[1]))]

    def do_other(self, l):
        rnd = self.rnd
        a = self.auth(l["c"])
        o = l["o"]
        if o == "register":
            n = rnd.choice(ODD)
            q = {"redirect_uris": ["https://x.example.com/cb", "https://y.example.com/cb?a=b"], "response_types": ["code", "code id_token"], "client_name": n, "client_name#sv": n + "\u00e5",
                 "contacts": ["a@x.org", "b@x.org"], "default_max_age": 10, "require_auth_time": True, "application_type": "web", "policy_uri": "https://x.example.com/p"}
            q.pop("client_name#sv")
            r = call(self.server, "registration", q)
            if r[0] != "ok":
                return [Div(T, "registration refused: %s" % (r,))]
            d = json.loads(self.server.server_get("endpoint", "registration").do_response(request=r[2], **r[1])["response"])
            self.reg = d
            return [Div(T, "registration: %s is %r, the answer says %r" % (k, v, d.get(k))) for k, v in q.items() if d.get(k) != v]
        if o == "read":
            if not getattr(self, "reg", None) or self.reg["client_id"] not in self.server.endpoint_context.cdb:
                return
            r = call(self.server, "registration_read", {"client_id": self.reg["client_id"]}, http_info={"headers": {"authorization": "Bearer " + self.reg["registration_access_token"]}})
            if r[0] != "ok":
                return [Div(T, "the registration can not be read: %s" % (r,))]
            d = json.loads(self.server.server_get("endpoint", "registration_read").do_response(request=r[2], **r[1])["response"])
            return [Div(T, "registration read: %s was %r, the answer says %r" % (k, self.reg[k], d.get(k))) for k in self.reg if k in ("client_id", "redirect_uris", "client_name", "contacts", "response_types", "default_max_age") and d.get(k) != self.reg[k]]
        if o == "push":
            r = call(self.server, "pushed_authorization", dict(a, redirect_uri=self.uri[l["c"]], response_type="code", scope="openid", state=rnd.choice(ODD), nonce="n"))
        elif o == "meta":
            r = call(self.server, "provider_config", {})
        else:
            return
        if r[0] != "ok":
            return [Div(T, "%s refused: %s" % (o, r))]
