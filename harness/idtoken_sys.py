"""Drives real servers along behaviours of spec/IdToken.tla."""
import json, random, base64, hashlib
from urllib.parse import urlencode
import opsys
from opsys import CLOCK, call, make_server, base_conf, add_client, ISS, reload_server, JWT, KeyJar
from engine import Div
from cryptojwt.jws.jws import factory

TICK = 100
SECRET = {c: "hemligt_hemligt_hemligt_hemligt_%s" % c for c in ("c1", "c2")}
PROTO = ["iss", "sub", "aud", "exp", "iat", "nbf", "jti", "nonce", "acr", "amr", "auth_time", "azp", "sid", "at_hash", "c_hash", "s_hash",
         "code", "access_token", "scope", "client_id", "session_id", "encrypt", "usage_rules", "ttype", "cnf", "token_class", "events"]
EVIL = {p: 1234567 if p in ("exp", "iat", "nbf", "auth_time") else "evil-" + p for p in PROTO}
DB = {"u1": dict(name="Diana"), "u2": dict(EVIL, name="Bob")}
RT = {"code": "code", "id": "id_token", "it": "id_token token", "ci": "code id_token", "cit": "code id_token token", "ct": "code token"}
ACR = {"a1": "pwd", "a2": "urn:example:loa2"}
LOGOUT = {"backchannel_logout_supported": True, "backchannel_logout_session_supported": True}


def left_hash(value, alg):
    d = hashlib.new("sha" + alg[-3:], value.encode()).digest()
    return base64.urlsafe_b64encode(d[:len(d) // 2]).rstrip(b"=").decode()


class IdTokenSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        long = 10 ** 7
        self.life = cfg["life"] * TICK
        rules = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1, "expires_in": long},
                 "access_token": {"expires_in": long},
                 "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"], "expires_in": long}}
        if self.rnd.random() < .3:
            rules["id_token"] = {"expires_in": self.life}
        idk = {"lifetime": self.life, "id_token_signing_alg_values_supported": cfg["supported"]}
        self.base = self.rnd.random() < .5
        if self.base:      # not only requests may select claims with such names
            idk["base_claims"] = {p: None for p in self.rnd.sample(PROTO, 3)}
        self.conf = base_conf("oidc", usage_rules=rules, grant_expires_in=long, code_lifetime=long, token_lifetime=long, refresh_lifetime=long,
                              id_token_kwargs=idk, token_kind=self.rnd.choice(["jwt", "opaque"]),
                              capabilities=dict(opsys.CAPABILITIES, id_token_signing_alg_values_supported=cfg["supported"]),
                              extra={"userinfo": {"class": "oidcop.user_info.UserInfo", "kwargs": {"db": DB}}})
        self.server = make_server(self.conf, "oidc")
        for c in SECRET:
            kw = {}
            if cfg["alg"][c] != "-":
                kw["id_token_signed_response_alg"] = cfg["alg"][c]
            if cfg["logout"]:
                kw["backchannel_logout_uri"] = "https://%s.example.com/bc" % c
            add_client(self.server, c, SECRET[c], **kw)

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 40

    def begin(self, walk):
        self.n += 1
        self.slots = {}
        CLOCK.reset()
        self.t0 = CLOCK.now
        # what the world sees of the provider's keys
        self.keys = KeyJar()
        self.keys.import_jwks(self.server.endpoint_context.keyjar.export_jwks(False, ""), ISS)

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    def do_tick(self, l):
        CLOCK.advance(TICK)

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, "oidc")

    def do_forget(self, l):
        self.slots.pop(l["i"])

    def judge(self, s, says, msg, where):
        bad = []
        what = "ID token at %s (%s, %s, response type %s)" % (where, s["c"], s["u"], s["rt"])
        tok = msg.get("id_token")
        if not tok:
            return [Div({"C16"}, "%s: there is none" % what)] if says else []
        if not says:
            return [Div({"C16"}, "%s: not asked for" % what)]
        t = says[0]
        head = factory(tok).jwt.headers
        if head.get("alg") != t["alg"]:
            bad.append("signed with %s, not %s" % (head.get("alg"), t["alg"]))
        keys = self.keys
        if t["alg"].startswith("HS"):       # the client's secret, nobody else's and nothing public
            keys = KeyJar()
            keys.add_symmetric(ISS, SECRET[s["c"]], ["sig"])
        try:
            JWT(key_jar=keys, allowed_sign_algs=[t["alg"]]).unpack(tok)
        except Exception as e:
            bad.append("does not verify: %r" % e)
        p = factory(tok).jwt.payload()
        aud = p.get("aud") if isinstance(p.get("aud"), list) else [p.get("aud")]
        want = {"iss": ISS, "sub": s["sub"], "auth_time": s["authn"], "acr": ACR[t["acr"]], "nonce": s["nonce"],
                "iat": CLOCK.now, "exp": CLOCK.now + self.life}
        for k, v in want.items():
            if p.get(k) != v:
                bad.append("%s is %r, not %r" % (k, p.get(k), v))
        if aud != [t["c"]]:
            bad.append("aud is %r" % aud)
        for k, flag, src in (("c_hash", t["ch"], msg.get("code")), ("at_hash", t["ah"], msg.get("access_token"))):
            h = left_hash(src, t["alg"]) if src else None
            if flag and p.get(k) != h:
                bad.append("%s is %r, not that of what came with it" % (k, p.get(k)))
            elif not flag and k in p and p[k] != h:
                bad.append("%s is %r, which is no hash of anything that came with it" % (k, p.get(k)))
        for k in PROTO:
            if k in p and k not in want and p[k] == EVIL[k] and k not in ("code", "access_token", "session_id", "encrypt", "usage_rules", "ttype",
                                                                          "token_class", "cnf", "scope", "client_id", "events"):
                bad.append("%s is the user's: %r" % (k, p[k]))
        return [Div({"C16"}, "%s: %s" % (what, b)) for b in bad]

    def do_auth(self, l):
        c, u = l["c"], l["u"]
        rt = RT[l["rt"]].split()
        self.rnd.shuffle(rt)
        req = {"client_id": c, "redirect_uri": "https://%s.example.com/cb" % c, "response_type": " ".join(rt), "state": "s", "scope": "openid"}
        if "code" in rt:
            req.update(scope="openid offline_access", prompt="consent")
        nonce = None
        if l["nonce"] != "-":
            nonce = req["nonce"] = l["nonce"] + "-%d" % self.rnd.randrange(3)
        if l["ask"] == "all":
            # all the names, or one of them
            names = PROTO if self.rnd.random() < .3 else self.rnd.sample(PROTO, self.rnd.randrange(1, 4))
            names = [n for n in names if n not in ("acr", "auth_time")]
            req["claims"] = json.dumps({"id_token": {n: self.rnd.choice([None, {"essential": True}]) for n in names}})
        elif l["ask"] == "acr":
            req["claims"] = json.dumps({"id_token": {self.rnd.choice(["acr", "auth_time"]): None}})
        authn = CLOCK.now - l["ago"] * TICK
        r = opsys.authorize(self.server, u, urlencode(req), authn_info=ACR[l["acr"]], authn_time=authn,
                            valid_until=CLOCK.now + 10 ** 6, sub_type=self.rnd.choice(["public", "pairwise", "ephemeral"]))
        if r[0] != "ok":
            return [Div({"C16"}, "%s: refused: %s" % (req, r[1:]))]
        a = r[1]["response_args"]
        s = {"u": u, "c": c, "rt": " ".join(rt), "nonce": nonce, "authn": authn, "sub": self.server.endpoint_context.session_manager[r[2]].sub, "a": a}
        self.slots[l["i"]] = s
        return self.judge(s, l["says"], a, "the authorization endpoint")

    def do_redeem(self, l):
        s = self.slots[l["i"]]
        r = call(self.server, "token", {"grant_type": "authorization_code", "code": s["a"]["code"], "client_id": s["c"], "client_secret": SECRET[s["c"]],
                                        "redirect_uri": "https://%s.example.com/cb" % s["c"]})
        if r[0] != "ok":
            return [Div({"C16"}, "code refused: %s" % (r[1:],))]
        a = r[1]["response_args"]
        s["r"] = a["refresh_token"]
        return self.judge(s, l["says"], a, "the token endpoint")

    def do_refresh(self, l):
        s = self.slots[l["i"]]
        r = call(self.server, "token", {"grant_type": "refresh_token", "refresh_token": s["r"], "client_id": s["c"], "client_secret": SECRET[s["c"]]})
        if r[0] != "ok":
            return [Div({"C16"}, "refresh refused: %s" % (r[1:],))]
        return self.judge(s, l["says"], r[1]["response_args"], "refresh")
