"""Drives real servers along behaviours of spec/Dpop.tla."""
import base64, hashlib, json, random
import opsys
from opsys import CLOCK, call, make_server, base_conf, add_client, authorize, reload_server
from engine import Div
from cryptojwt.jws.jws import JWS, factory
from cryptojwt.jwk.hmac import SYMKey
from clientauth_sys import key_of, pub_jwk

T = {"C23"}
CID, SECRET = "client1", "hemligt_hemligt_hemligt_hemligt_1"
REAL = {"e1": "EC", "e2": "EC", "r1": "RSA", "r2": "RSA"}
OTHER = {"e1": "e2", "e2": "e1", "r1": "r2"}
b64 = lambda b: base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def key(k):
    return key_of("dpop-" + k, REAL[k])


def thumb(jwk):
    need = {"EC": ("crv", "kty", "x", "y"), "RSA": ("e", "kty", "n"), "oct": ("k", "kty")}[jwk["kty"]]
    return b64(hashlib.sha256(json.dumps({n: jwk[n] for n in need}, sort_keys=True, separators=(",", ":")).encode()).digest())


def jwk_of(k, private=False):
    d = key(k).serialize(private=private)
    return {a: (b.decode() if isinstance(b, bytes) else b) for a, b in d.items()}


class DpopSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        kw = {"dpop_signing_alg_values_supported": sorted(cfg["algs"])} if cfg["given"] else {}
        long = 10 ** 7
        rules = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1, "expires_in": long},
                 "access_token": {"expires_in": long},
                 "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"], "expires_in": long}}
        self.conf = base_conf(cfg["flavour"], usage_rules=rules, grant_expires_in=long, code_lifetime=long, token_lifetime=long, refresh_lifetime=long,
                              add_on={"dpop": {"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": kw}})
        self.server = make_server(self.conf, cfg["flavour"])
        add_client(self.server, CID, SECRET)
        self.url = self.server.server_get("endpoint", "token").full_path

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 40

    def begin(self, walk):
        self.n += 1
        self.slots, self.toks = {}, []
        sm = self.server.endpoint_context.session_manager
        sm.db = type(sm.db)()

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, self.cfg["flavour"])

    def do_auth(self, l):
        oidc = self.cfg["flavour"] == "oidc"
        q = {"client_id": CID, "redirect_uri": "https://client1.example.com/cb", "response_type": "code", "state": "s", "nonce": "n",
             "scope": "openid offline_access" if oidc else "profile"}
        if oidc:
            q["prompt"] = "consent"
        r = authorize(self.server, "diana", q, authn_time=CLOCK.now, valid_until=CLOCK.now + 10 ** 7)
        if r[0] != "ok":
            return [Div(T, "authorization refused: %s" % (r[1:],))]
        self.slots[l["i"]] = {"code": r[1]["response_args"]["code"]}

    # ------------------------------------------------------------------
    def proof(self, p):
        rnd = self.rnd
        url = self.url
        k = p["k"]
        hdr = {"typ": p["typ"], "alg": p["alg"], "jwk": jwk_of(k, private=p["hdr"] == "private")}
        if p["typ"] == "absent":
            del hdr["typ"]
        if p["hdr"] == "nojwk":
            del hdr["jwk"]
            if rnd.random() < .5:
                hdr["kid"] = key(k).kid
        host = url.split("/")[2]
        htu = {"exact": url, "other": url.replace("/token", "/" + rnd.choice(["userinfo", "tokens", "introspection", ""])), "http": "http" + url[5:],
               "longer": url + rnd.choice(["/", "/x", "#f"]), "query": url + "?a=b",
               "host": url.replace(host, rnd.choice(["evil.example.net", host + ".evil.net", host + ":444"])), "prefix": url[:-1],
               "issuer": opsys.ISS, "absent": None}[p["htu"]]
        pl = {"jti": "j%d" % rnd.randrange(10 ** 12), "htm": p["htm"], "htu": htu, "iat": CLOCK.now}
        if htu is None:
            del pl["htu"]
        if p["htm"] == "absent":
            del pl["htm"]
        if p["hdr"] == "both":
            hdr.update(htu=url, htm="POST")
        b = p["body"]
        if b == "jwk":
            pl["jwk"] = jwk_of(OTHER[k])
        elif b == "typ":
            pl["typ"] = "dpop+jwt"
        elif b == "alg":
            pl["alg"] = rnd.choice(sorted(self.cfg["algs"]))
        elif b == "nojti":
            del pl["jti"]
        elif b == "noiat":
            del pl["iat"]
        elif b == "old":
            pl["iat"] = CLOCK.now - 10 ** 6
        alg = p["alg"]
        signer = key(k if p["s"] != "other" else OTHER[k])
        if alg == "mixed":       # an algorithm for another type of key
            hdr["alg"] = "RS256" if REAL[k] == "EC" else "ES256"
            signer = key("r2" if REAL[k] == "EC" else "e2")
        elif alg in ("HSpub", "HSoct"):
            if alg == "HSpub":
                raw = json.dumps(jwk_of(k)).encode()
            else:
                raw = b"a symmetric key that everybody knows"
                if "jwk" in hdr:
                    hdr["jwk"] = {"kty": "oct", "k": b64(raw)}
            hdr["alg"] = "HS256"
            signer = SYMKey(key=raw)
        elif alg == "none":
            hdr["alg"] = rnd.choice(["none", "none", "None"])
        h = b64(json.dumps(hdr).encode())
        body = b64(json.dumps(pl).encode())
        if alg == "none":
            return "%s.%s." % (h, body)
        # sign exactly this header, whatever libraries would put in
        from cryptojwt.jws.jws import SIGNER_ALGS
        msg = ("%s.%s" % (h, body)).encode()
        a = hdr["alg"]
        sig = SIGNER_ALGS[a].sign(msg, signer.private_key() if a[0] != "H" else signer.key)
        if p["s"] == "altered":
            if rnd.random() < .5:
                i = rnd.randrange(len(sig))
                sig = sig[:i] + bytes([sig[i] ^ (1 << rnd.randrange(8))]) + sig[i + 1:]
            else:
                body = b64(json.dumps(dict(pl, x="y")).encode())
        elif p["s"] == "stripped":
            sig = b""
        return "%s.%s.%s" % (h, body, b64(sig))

    def ask(self, l):
        s = self.slots[l["i"]]
        p = l["p"]
        if l["a"] == "redeem":
            req = {"grant_type": "authorization_code", "code": s["code"], "redirect_uri": "https://client1.example.com/cb"}
        else:
            req = {"grant_type": "refresh_token", "refresh_token": s["rt"]}
        req.update(client_id=CID, client_secret=SECRET)
        if l["how"] == "param":
            req["dpop_jkt"] = thumb(jwk_of("e2"))
        headers = {}
        if p["s"] != "none":
            headers["dpop"] = self.proof(p)
        elif self.rnd.random() < .6:
            headers["dpop"] = self.rnd.choice(["", "x", "a.b.c", "e30.e30.e30", "null"])
        if l["how"] == "string":
            req = json.dumps(req)
        kw = {} if self.cfg["flavour"] == "oidc" else {"issue_refresh": True}
        r = call(self.server, "token", req, http_info={"headers": headers, "url": self.url, "method": "POST"}, **kw)
        self.stats["%s %s" % (l["a"], l["v"])] = self.stats.get("%s %s" % (l["a"], l["v"]), 0) + 1
        what = "%s with proof %s (%s)" % (l["a"], p, l["how"])
        if r[0] != "ok":
            if l["v"] == "yes":
                return [Div(T, "%s refused: %s" % (what, r[1:]))]
            return
        if l["v"] == "no":
            return [Div(T, "%s is served" % what)]
        a = r[1]["response_args"]
        want = thumb(jwk_of(p["k"]))
        got = self.bound(a["access_token"])
        if got != want:
            return [Div(T, "%s: the access token is bound to %s, must be %s" % (what, got, want))]
        if l["v"] == "yes":
            if a.get("token_type", "").lower() != "dpop":
                return [Div(T, "%s: token type is %s" % (what, a.get("token_type")))]
            self.toks.append(a["access_token"])
            s["rt"] = a.get("refresh_token", s.get("rt"))

    def bound(self, at):
        return (factory(at).jwt.payload().get("cnf") or {}).get("jkt")

    def do_redeem(self, l):
        return self.ask(l)

    def do_refresh(self, l):
        return self.ask(l)

    def do_look(self, l):
        at = self.toks[l["n"] - 1]
        r = call(self.server, "introspection", {"token": at, "client_id": CID, "client_secret": SECRET})
        if r[0] != "ok" or not r[1]["response_args"].get("active"):
            return [Div(T, "a DPoP bound token is not active: %s" % (r[1:],))]
        cnf = r[1]["response_args"].get("cnf")
        want = thumb(jwk_of(l["k"]))
        if cnf is not None and cnf.get("jkt") != want:
            return [Div(T, "introspection says bound to %s, is to %s" % (cnf, want))]
        t = r[1]["response_args"].get("token_type")
        if t is not None and t.lower() != "dpop":
            return [Div(T, "introspection says token type %s" % t)]
