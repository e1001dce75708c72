"""Drives real servers along behaviours of spec/ClientAuth.tla."""
import base64, json, random
from urllib.parse import quote_plus
import opsys
from opsys import CLOCK, call, authorize, make_server, base_conf, add_client, ISS
from engine import Div
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import KeyJar

NEVER = 99
TICK = 60
SPECIALS = ["", ":", "+ %2B", "å:%", "&=?", "\"'\\", "==", " "]
EP = {"token": "token", "introspection": "introspection", "pushed_authorization": "pushed_authorization",
      "userinfo": "userinfo", "registration_read": "registration_read"}
_keys = {}


def key_of(c, typ):
    k = _keys.get((c, typ))
    if k is None:
        k = new_rsa_key(kid="%s-%s" % (c, typ)) if typ == "RSA" else new_ec_key("P-256", kid="%s-%s" % (c, typ))
        _keys[(c, typ)] = k
    return k


def pub_jwk(k):
    return {a: b for a, b in k.serialize(private=False).items()}


class ClientAuthSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        eps = {}
        for e, ms in cfg["methods"].items():
            eps[EP[e]] = {"client_authn_method": sorted(ms)}
            self.rnd.shuffle(eps[EP[e]]["client_authn_method"])
        self.flavour = "oidc"
        self.conf = base_conf(self.flavour, endpoints=eps)
        self.server = make_server(self.conf, self.flavour)
        self.secret = {}
        self.typ = {}
        for c, cl in cfg["client"].items():
            self.typ[c] = self.rnd.choice(["RSA", "EC"])
            sp = self.rnd.choice(SPECIALS)
            self.secret[c] = "Hemligt%sHemligt_hemligt-hemligt.%s" % (sp, c)
            e = add_client(self.server, c, self.secret[c])
            if not cl["sec"]:
                del e["client_secret"]
                self.server.endpoint_context.keyjar.remove(self.server.endpoint_context.keyjar.get("sig", "oct", c)[0]) \
                    if False else None
                self.server.endpoint_context.keyjar._issuers.pop(c, None)
            if cl["prv"]:
                self.server.endpoint_context.keyjar.import_jwks({"keys": [pub_jwk(key_of(c, self.typ[c]))]}, c)
            if cl["eta"] == NEVER and self.rnd.random() < .5:
                e["client_secret_expires_at"] = 0
        self.users = {c: u for c, u in zip(sorted(cfg["client"]), ["diana", "bob", "diana"])}

    def params(self):
        return {"seed": self.seed, "secrets": self.secret}

    def worn(self):
        return self.n >= 40

    def begin(self, walk):
        self.n += 1
        self.t0 = CLOCK.now
        # assertions may live long; what is remembered about them has to last as long
        self.tick = self.rnd.choice([TICK, 700, 4000, 90000])
        self.eps = self.rnd.choice([1, self.tick - 16])   # assertions: 15 seconds of clock skew are tolerated
        self.reloaded = False
        self.rejected = set()
        for c, cl in self.cfg["client"].items():
            if cl["eta"] != NEVER:
                self.server.endpoint_context.cdb[c]["client_secret_expires_at"] = self.t0 + cl["eta"] * self.tick + self.rnd.choice([1, self.tick - 1])

    def end(self):
        return []

    def do_tick(self, l):
        CLOCK.advance(self.tick)

    def do_reload(self, l):
        try:
            self.server = opsys.reload_server(self.server, self.conf, self.flavour, plain="pushed_authorization" in self.cfg["methods"])
        except Exception as e:
            return [Div({"C21"}, "dump and reload fails: %r" % e)]
        self.reloaded = True

    def step(self, l, o):
        divs = getattr(self, "do_" + l["a"])(l) or []
        if divs and self.reloaded:
            for d in divs:
                d["tags"] = sorted(set(d["tags"]) | {"C21"})
        return divs

    # -- building requests
    def other(self, c):
        xs = [x for x in self.cfg["client"] if x != c]
        return self.rnd.choice(xs)

    def bad_secret(self, c, q):
        own = self.secret.get(c, "whatever_whatever_whatever")
        if q == "own":
            return own
        if q == "other":
            return self.secret[self.other(c)]
        if q == "prefix":
            return own[:self.rnd.choice([1, len(own) // 2, len(own) - 1])]
        if q == "longer":
            return own + self.rnd.choice(["x", " ", "\x00", own])
        if q == "empty":
            return ""
        return own.swapcase()

    def jti(self, c, j):
        # identifiers of different clients that run together when concatenated
        x = "x%d%s" % (self.n, self.seed)
        return {"j1": "1" + x, "j2": x, "j3": "/" + x}[j]

    def assertion(self, ep, p):
        c = p["id"]
        known = c in self.cfg["client"]
        srv = self.server
        k = p["key"]
        alg = None
        me = c if known else sorted(self.cfg["client"])[0]
        if k == "sec":
            key, alg = SYMKey(key=self.secret[me]), self.rnd.choice(["HS256", "HS384", "HS512"])
        elif k == "osec":
            key, alg = SYMKey(key=self.secret[self.other(me)] if self.rnd.random() < .8 else "x" * 40), "HS256"
        elif k in ("prv", "oprv"):
            oc = me if k == "prv" else self.other(me)
            if k == "oprv" and not self.cfg["client"][oc]["prv"]:
                oc = "nobody"
            t = self.typ.get(oc, "RSA")
            key = key_of(oc, t)
        elif k == "fresh":
            t = self.typ.get(me, "RSA")
            key = (key_of("fresh", t))
            key.kid = key_of(me, t).kid
        elif k == "srv":
            t = self.rnd.choice(["RSA", "EC"])
            key = srv.endpoint_context.keyjar.get_signing_key(t, "")[0]
        elif k == "pub":
            pk = key_of(me, self.typ[me])
            if self.rnd.random() < .5:
                raw = json.dumps(pub_jwk(pk))
            else:
                from cryptography.hazmat.primitives import serialization as S
                raw = pk.public_key().public_bytes(S.Encoding.PEM, S.PublicFormat.SubjectPublicKeyInfo).decode()
            key, alg, t = SYMKey(key=raw), "HS256", "oct"
            key.kid = self.rnd.choice([pk.kid, ""])
        else:
            key = None
            alg = "none"
        if alg is None:
            alg = "ES256" if t == "EC" else self.rnd.choice(["RS256", "PS256", "RS512"])
        url = srv.server_get("endpoint", EP[ep]).full_path
        others = [srv.server_get("endpoint", EP[e]).full_path for e in ("token", "introspection", "pushed_authorization") if e != ep]
        aud = {"this": url, "both": [self.rnd.choice(others), url], "other": self.rnd.choice(others + [others]), "issuer": ISS,
               "longer": self.rnd.choice([url + "/", url + "/x", url + "?a=b", url[:-1], url.upper()]),
               "junk": self.rnd.choice(["https://evil.example.org/token", "", "token", "x"]), "missing": None}[p["aud"]]
        if p["aud"] == "this" and self.rnd.random() < .5:
            aud = [aud]
        exp = self.t0 + self.eps if p["exp"] != NEVER else self.t0 + 10 ** 7
        pl = {"iss": c, "sub": c, "iat": self.t0, "exp": exp}
        if aud is not None:
            pl["aud"] = aud
        if p["jti"] != "none":
            pl["jti"] = self.jti(c, p["jti"])
        jws = JWS(json.dumps(pl), alg=alg)
        if alg == "none":
            h = base64.urlsafe_b64encode(b'{"alg":"none"}').rstrip(b"=").decode()
            return h + "." + base64.urlsafe_b64encode(json.dumps(pl).encode()).rstrip(b"=").decode() + "."
        return jws.sign_compact([key], **({"kid": key.kid} if key.kid else {}))

    def put(self, ep, p, body, headers):
        m = p["m"]
        if m == "basic":
            cred = "%s:%s" % (quote_plus(p["id"]), quote_plus(self.bad_secret(p["id"], p["q"])))
            headers["authorization"] = "Basic " + base64.b64encode(cred.encode()).decode()
        elif m == "post":
            body["client_id"] = p["id"]
            body["client_secret"] = self.bad_secret(p["id"], p["q"])
        elif m == "jwt":
            body["client_assertion"] = self.assertion(ep, p)
            body["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"

    def fresh_code(self, c):
        r = authorize(self.server, self.users[c], {"client_id": c, "redirect_uri": "https://%s.example.com/cb" % c,
                                                  "response_type": "code", "scope": "openid", "state": "s", "nonce": "n"},
                      authn_time=CLOCK.now, valid_until=CLOCK.now + 10 ** 6)
        return r[1]["response_args"]["code"]

    def send(self, ep, body, headers, target):
        """-> client the request was processed as, or None"""
        hi = {"headers": headers, "url": "", "method": "POST"}
        if ep == "token":
            body.update(grant_type="authorization_code", code=self.fresh_code(target),
                        redirect_uri="https://%s.example.com/cb" % target)
            r = call(self.server, "token", body, http_info=hi)
            return target if r[0] == "ok" else None
        if ep == "introspection":
            body["token"] = "sometoken"
            r = call(self.server, "introspection", body, http_info=hi)
            return r[2].get("client_id") if r[0] == "ok" else None
        body.update(response_type="code", scope="openid", state="s", redirect_uri="https://%s.example.com/cb" % target)
        r = call(self.server, "pushed_authorization", body, http_info=hi)
        if r[0] != "ok":
            return None
        uri = r[1]["http_response"]["request_uri"]
        aep = self.server.server_get("endpoint", "authorization")
        try:
            q = aep.parse_request({"client_id": target, "request_uri": uri, "response_type": "code",
                                   "redirect_uri": "https://%s.example.com/cb" % target, "scope": "openid"},
                                  http_info={"headers": {}})
            if opsys.is_error(q):
                return "?"
        except Exception:
            return "?"
        return q["client_id"]

    def do_ask(self, l):
        ep, p, who = l["ep"], l["p"], l["who"]
        body, headers = {}, {}
        if l["claim"]:
            body["client_id"] = l["claim"]
        self.put(ep, p, body, headers)
        cands = [c for c in [who, who, who, p["id"], l["claim"]] if c in self.cfg["client"]]
        target = self.rnd.choice(cands) if cands else self.rnd.choice(sorted(self.cfg["client"]))
        got = self.send(ep, body, headers, target)
        self.stats["asks"] = self.stats.get("asks", 0) + 1
        tags = {"C07"}
        if p["m"] == "jwt" and p["jti"] != "none":
            if l["why"] == "seen":
                tags = {"C08"}
            elif who:
                tags |= {"C08"}
        if not who:
            if got is not None:
                return [Div(tags, "%s request with %s (client_id %r) was processed as %s, must be refused (%s)" %
                            (ep, show(p), l["claim"], got, l["why"]))]
        elif ep == "introspection" or target == who:
            if got != who:
                return [Div(tags, "%s request with %s (client_id %r) was %s, must be processed as %s" %
                            (ep, show(p), l["claim"], "refused" if got is None else "processed as %s" % got, who))]
        elif got is not None:
            # the request was about something that belongs to another client
            return [Div(tags, "%s request with %s was processed as %s, must be as %s" % (ep, show(p), got, who))]

    def do_two(self, l):
        ep = l["ep"]
        body, headers = {}, {}
        self.put(ep, l["p"], body, headers)
        self.put(ep, l["p2"], body, headers)
        target = self.rnd.choice(sorted(self.cfg["client"]))
        got = self.send(ep, body, headers, target)
        may = set(l["may"])
        if got is not None and got not in may:
            return [Div({"C07"}, "%s request with %s and %s was processed as %s, may be only as %s" %
                        (ep, show(l["p"]), show(l["p2"]), got, sorted(may) or "nobody"))]

    def do_bearer(self, l):
        ep, o, tok = l["ep"], l["owner"], l["tok"]
        ctx = self.server.endpoint_context
        sid = None
        sub = None
        if ep == "userinfo":
            r = authorize(self.server, self.users[o],
                          {"client_id": o, "redirect_uri": "https://%s.example.com/cb" % o, "response_type": "code token",
                           "scope": "openid offline_access", "state": "s", "nonce": "n", "prompt": "consent"},
                          authn_time=CLOCK.now, valid_until=CLOCK.now + 10 ** 6)
            val = r[1]["response_args"]["access_token"]
            sid = r[2]
            grant = ctx.session_manager.get_grant(sid)
            sub = grant.sub
            if tok == "revoked":
                ctx.session_manager.revoke_token(sid, val)
            elif tok == "refresh":
                val = r[1]["response_args"]["code"] if self.rnd.random() < .5 else \
                    grant.mint_token(sid, ctx, token_class="refresh_token",
                                     token_handler=ctx.session_manager.token_handler["refresh_token"],
                                     based_on=grant.get_token(r[1]["response_args"]["code"])).value
        else:
            val = "regtoken_%d_%d_%s" % (self.n, self.rnd.randrange(10 ** 9), o)
            ctx.registration_access_token[val] = o
        if tok == "junk":
            val = self.rnd.choice(["x", val[:-2] + ("AA" if val[-2:] != "AA" else "BB"), "a.b.c", "å", val + "x"])
        headers, body = {}, {}
        if l["claim"]:
            body["client_id"] = l["claim"]
        if l["m"] == "bearer_header":
            headers["authorization"] = "Bearer " + val
        else:
            body["access_token"] = val
        r = call(self.server, ep, body, http_info={"headers": headers, "url": "", "method": "GET"})
        if r[0] != "ok":
            if l["who"] not in ("", "?"):
                return [Div({"C07"}, "%s refuses a live token of %s (%s, client_id %r): %s" % (ep, o, l["m"], l["claim"], r[1:]))]
            return
        if l["who"] == "":
            return [Div({"C07", "C03"} if tok != "live" else {"C07"},
                        "%s serves a %s token of %s (%s, client_id %r)" % (ep, tok, o, l["m"], l["claim"]))]
        ra = r[1]["response_args"]
        if ep == "userinfo" and ra.get("sub") != sub or ep != "userinfo" and ra.get("client_id", o) != o:
            return [Div({"C07"}, "%s: token of %s answered with somebody else's data" % (ep, o))]
        if r[2].get("client_id") != o:
            return [Div({"C07"}, "%s: token of %s processed as %s" % (ep, o, r[2].get("client_id")))]


def show(p):
    return " ".join("%s=%s" % kv for kv in p.items())
