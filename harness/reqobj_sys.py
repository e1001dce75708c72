"""Drives real servers along behaviours of spec/ReqObj.tla."""
import base64, json, random
from urllib.parse import urlencode, parse_qsl
import opsys
from opsys import CLOCK, make_server, base_conf, add_client, ISS, is_error, create_authn_event, reload_server
from engine import Div
from clientauth_sys import key_of, pub_jwk
from cryptojwt.jws.jws import JWS
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.jwk.ec import new_ec_key

SECRET = {"c1": "hemligt_hemligt_hemligt_hemligt_1_hemligt", "c2": "hemligt_hemligt_hemligt_hemligt_2_hemligt"}
URIS = {c: ["https://%s.example.com/cb" % c, "https://%s.example.com/other" % c] for c in SECRET}
REG = {c: ["https://%s.example.com/req/1" % c, "https://%s.example.com/req/2" % c] for c in SECRET}
_fresh = {}


def fresh(typ):
    if typ not in _fresh:
        _fresh[typ] = new_rsa_key() if typ == "RSA" else new_ec_key("P-256")
    return _fresh[typ]


class ReqObjSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        self.flavour = cfg["flavour"]
        self.conf = base_conf(self.flavour, endpoints={"authorization": {
            "request_object_signing_alg_values_supported": sorted(cfg["algs"])}}, par=self.rnd.random() < .5)
        self.server = make_server(self.conf, self.flavour)
        ctx = self.server.endpoint_context
        ctx.provider_info["request_object_signing_alg_values_supported"] = sorted(cfg["algs"])
        for c, cl in cfg["client"].items():
            e = add_client(self.server, c, SECRET[c], redirect_uris=[(u, {}) for u in URIS[c]],
                           response_types=["code", "code token"])
            ctx.keyjar.import_jwks({"keys": [pub_jwk(key_of(c, "RSA")), pub_jwk(key_of(c, "EC"))]}, c)
            if cl["alg"]:
                e["request_object_signing_alg"] = cl["alg"]
            if cl["refs"]:
                e["request_uris"] = [(u, None) for u in REG[c]]

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 60

    def begin(self, walk):
        self.n += 1

    def end(self):
        return []

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, self.flavour, plain=True)

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    def sign(self, o, c, payload):
        other = "c2" if c == "c1" else "c1"
        s, alg = o["signer"], o["alg"]
        typ = {"RS": "RSA", "ES": "EC", "HS": "oct"}[alg[:2]]
        if s == "json":
            return json.dumps(payload)
        if s == "none":
            h = {"alg": "none", "typ": "JWT"}
            b = lambda d: base64.urlsafe_b64encode(json.dumps(d).encode()).decode().rstrip("=")
            return b(h) + "." + b(payload) + "."
        if s == "pub":
            jwk = json.dumps(pub_jwk(key_of(c, "RSA")))
            return JWS(json.dumps(payload), alg="HS256").sign_compact([SYMKey(key=jwk, use="sig", alg="HS256")])
        own = SYMKey(key=SECRET[c], use="sig", alg=alg) if typ == "oct" else key_of(c, typ)
        if s in ("own", "broken"):
            key = own
        elif s == "other":
            key = SYMKey(key=SECRET[other], use="sig", alg=alg) if typ == "oct" else key_of(other, typ)
        elif s == "srv":
            ks = self.server.endpoint_context.keyjar.get_signing_key(typ, "")
            key = ks[0] if ks else SYMKey(key=self.server.endpoint_context.issuer, use="sig", alg=alg)
        else:
            key = SYMKey(key="x" * 40, use="sig", alg=alg) if typ == "oct" else fresh(typ)
            if typ != "oct":
                key.kid = own.kid
        t = JWS(json.dumps(payload), alg=alg).sign_compact([key])
        if s == "broken":
            h, p, g = t.split(".")
            p2 = base64.urlsafe_b64encode(json.dumps(dict(payload, state="forged-state")).encode()).decode().rstrip("=")
            t = ".".join([h, p2, g]) if self.rnd.random() < .7 else ".".join([h, p, g[:-6] + ("AAAAAA" if g[-6:] != "AAAAAA" else "BBBBBB")])
        return t

    def do_ask(self, l):
        c, o, v = l["c"], l["o"], l["verdict"]
        other = "c2" if c == "c1" else "c1"
        n = self.rnd.randrange(10 ** 9)
        inner = {"redirect_uri": URIS[c][0], "response_type": "code", "state": "in-%d" % n, "scope": "openid email",
                 "nonce": "in-%d" % n}
        if o["inner"] == "otheruri":
            inner["redirect_uri"] = URIS[c][1]
        elif o["inner"] == "baduri":
            inner["redirect_uri"] = self.rnd.choice(["https://evil.org/cb", URIS[other][0], URIS[c][0] + "x"])
        elif o["inner"] == "badrt":
            inner["response_type"] = self.rnd.choice(["token", "code id_token", "id_token"])
        elif o["inner"] == "rt":
            inner["response_type"] = "code token"
        outer = {"client_id": c, "redirect_uri": inner["redirect_uri"] if o["inner"] == "good" else URIS[c][0],
                 "response_type": "code", "state": inner["state"], "scope": inner["scope"], "nonce": inner["nonce"]}
        if o["outer"] == "differ" or v == "no":
            outer.update(state="out-%d" % n, scope="openid", nonce="out-%d" % n)
        elif o["outer"] == "baduri":
            outer["redirect_uri"] = "https://evil.org/out"
        elif o["outer"] == "badrt":
            outer["response_type"] = "token"
        ids = {"own": c, "other": other, "junk": "nobody"}
        payload = dict(inner)
        if o["iss"] != "absent":
            payload["iss"] = ids[o["iss"]]
        if o["cid"] != "absent":
            payload["client_id"] = ids[o["cid"]]
        if self.rnd.random() < .5:
            payload["aud"] = [ISS]
        jwt = self.sign(o, c, payload)
        req = dict(outer)
        http = self.server.endpoint_context.httpc
        http.table.clear()
        http.gets.clear()
        if o["ref"] == "value":
            req["request"] = jwt
        else:
            u = self.rnd.choice(REG[c])
            if o["ref"] == "regfrag":
                u += "#" + str(n)
            elif o["ref"] == "unregistered":
                u = self.rnd.choice(["https://evil.org/req", REG[other][0]])
            elif o["ref"] == "longer":
                u += "x"
            elif o["ref"] == "query":
                u += "?x=1"
            http.table[u] = jwt
            req["request_uri"] = u
        what = "request object %s of %s" % (o, c)
        ep = self.server.server_get("endpoint", "authorization")
        try:
            r = ep.parse_request(req if self.rnd.random() < .5 else urlencode(req), http_info={"headers": {}})
            if is_error(r):
                r, err = None, str(r)
        except Exception as e:
            r, err = None, repr(e)
        if r is None:
            if v == "must":
                return [Div({"C26"}, "%s refused: %s" % (what, err[:200]))]
            return
        if v == "refuse":
            return [Div({"C26"}, "%s accepted although what it asks for is not registered" % what)]
        if r["client_id"] != c:
            return [Div({"C26"}, "%s: processed for %s" % (what, r["client_id"]))]
        used = outer if v == "no" else inner
        tags = {"C26"}
        for k in ("state", "nonce", "redirect_uri", "scope", "response_type"):
            g = r.get(k)
            g = " ".join(g) if isinstance(g, list) else g
            if g != used[k]:
                return [Div(tags, "%s (%s): %s=%r processed; inside %r, outside %r" % (what, v, k, g, inner[k], outer[k]))]
        return self.answer(c, r, used, what)

    def answer(self, c, r, used, what):
        ctx = self.server.endpoint_context
        ev = create_authn_event("diana", authn_info="pwd", authn_time=CLOCK.now, valid_until=CLOCK.now + 3600)
        sid = ctx.session_manager.create_session(ev, r, "diana", client_id=r["client_id"], sub_type="public",
                                                 token_usage_rules=ctx.authz.usage_rules(r["client_id"]))
        ep = self.server.server_get("endpoint", "authorization")
        info = ep.authz_part2(r, sid)
        loc = ep.do_response(request=r, **info)["response"]
        u = used["redirect_uri"]
        a = dict(parse_qsl(loc[len(u) + 1:]))
        if not loc.startswith(u) or loc[len(u)] not in "?#" or a.get("state") != used["state"] or a.get("client_id") != c:
            return [Div({"C26"}, "%s: answered with %s" % (what, loc[:200]))]
