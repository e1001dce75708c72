"""Drives real servers along behaviours of spec/Pkce.tla."""
import base64, hashlib, json, random
import opsys
from opsys import CLOCK, call, authorize, make_server, base_conf, add_client, ISS, reload_server
from engine import Div

SECRET = {"c1": "hemligt_hemligt_hemligt_hemligt_1", "c2": "hemligt_hemligt_hemligt_hemligt_2"}
CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~"
H = {"S256": hashlib.sha256, "S384": hashlib.sha384, "S512": hashlib.sha512}
RULES = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1, "expires_in": 300},
         "access_token": {"expires_in": 600},
         "refresh_token": {"supports_minting": ["access_token", "refresh_token"], "expires_in": 3600}}


def transform(m, s):
    return base64.urlsafe_b64encode(H[m](s.encode()).digest()).decode().rstrip("=") if m in H else s


class PkceSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        self.flavour = cfg["flavour"]
        ms = sorted(cfg["methods"])
        self.rnd.shuffle(ms)
        kw = {"essential": cfg["server"], "code_challenge_methods": ms}
        if not cfg["server"] and self.rnd.random() < .5:
            del kw["essential"]
        if len(ms) == 4 and self.rnd.random() < .5:
            del kw["code_challenge_methods"]     # all of them is the default
        self.conf = base_conf(self.flavour, usage_rules=RULES, token_kind=self.rnd.choice(["jwt", "default"]),
                              add_on={"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": kw}})
        self.server = make_server(self.conf, self.flavour)
        for c, e in cfg["essential"].items():
            ci = add_client(self.server, c, SECRET[c])
            if e != "unset":
                ci["pkce_essential"] = e == "yes"

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 60

    def begin(self, walk):
        self.n += 1
        self.codes = []      # [code, sid, state, refresh token]
        self.seeds = {}
        self.user = self.rnd.choice(["diana", "bob"])

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    def string(self, s):
        if s[0] not in self.seeds:
            n = self.rnd.choice([43, 64, 128])
            self.seeds[s[0]] = "".join(self.rnd.choice(CHARS) for _ in range(n))
        x = self.seeds[s[0]]
        for t in s[1:]:
            x = self.close(x) if t == "~" else transform(t, x)
        return x

    def close(self, x):
        i = self.rnd.randrange(len(x))
        return self.rnd.choice([x[:-1], x + "A", x[:i] + x[i].swapcase() + x[i + 1:] if x[i].isalpha() else x[1:], x[::-1],
                                x + "=", " " + x, "", x.upper() + "_", x + "\n", x + "å"])

    def do_authorize(self, l):
        c = l["c"]
        st = "st%d" % self.rnd.randrange(10 ** 9)
        q = {"client_id": c, "redirect_uri": "https://%s.example.com/cb" % c, "response_type": "code", "state": st,
             "scope": "openid offline_access" if self.flavour == "oidc" else "profile", "nonce": "n", "prompt": "consent"}
        if self.flavour == "oidc" and self.rnd.random() < .2:
            q["response_type"] = self.rnd.choice(["code id_token", "code token"])
        if l["ch"]:
            q["code_challenge"] = self.string(l["ch"])
        if l["d"]:
            q["code_challenge_method"] = l["d"]
        if l["via"] == "par":
            r = call(self.server, "pushed_authorization", dict(q, client_secret=SECRET[c]))
            if r[0] == "ok":
                q = {"client_id": c, "request_uri": r[1]["http_response"]["request_uri"]}
                for p in ("response_type", "scope", "redirect_uri", "nonce", "prompt", "state"):   # demanded by the message classes
                    q[p] = r[2].to_dict()[p] if not isinstance(r[2].to_dict()[p], list) else " ".join(r[2].to_dict()[p])
        if l["via"] != "par" or r[0] == "ok":
            r = authorize(self.server, self.user, q, authn_time=CLOCK.now, valid_until=CLOCK.now + 3600)
        ok = r[0] == "ok"
        what = "challenge %s, method %r, via %s, client %s (%s), server %s" % (l["ch"], l["d"], l["via"], c,
                                                                             self.cfg["essential"][c], self.cfg["server"])
        if ok and not l["ok"]:
            return [Div({"C11"}, "accepted an authorization request with %s" % what)]
        if not ok and l["ok"]:
            return [Div({"C11"}, "refused an authorization request with %s: %s" % (what, r[1:]))] if not l["may"] else self.codes.append(None)
        if ok:
            self.codes.append([r[1]["response_args"]["code"], r[2], st, None])

    def do_redeem(self, l):
        if self.codes[l["i"] - 1] is None:
            return
        code, sid, st, _ = self.codes[l["i"] - 1]
        c = l["c"]
        q = {"grant_type": "authorization_code", "code": code, "client_id": c, "client_secret": SECRET[c],
             "redirect_uri": "https://%s.example.com/cb" % c}
        if l["ver"]:
            q["code_verifier"] = self.string(l["ver"])
        if l["extra"] == "method":
            q["code_challenge_method"] = "plain"
        elif l["extra"] == "challenge":
            q["code_challenge"] = q.get("code_verifier", "x")
            q["code_challenge_method"] = "plain"
        g = lambda: self.server.endpoint_context.session_manager.get_grant(sid)
        n = len(g().issued_token)
        r = call(self.server, "token", q if self.rnd.random() < .6 else json.dumps(q))
        ok = r[0] == "ok"
        v = l["verdict"]
        if ok and v == "no":
            if l["st"] in ("used", "replayed"):
                return [Div({"C01"}, "code redeemed twice")]
            return [Div({"C11"}, "code with challenge %s (%s) redeemed with verifier %s %s" % (l["ch"], l["m"], l["ver"], l["extra"]))]
        if not ok and v == "must":
            return [Div({"C11"}, "code with challenge %s (%s) not redeemed with verifier %s: %s" % (l["ch"], l["m"], l["ver"], r[1:]))]
        if not ok and len(g().issued_token) != n:
            return [Div({"C11"}, "refused token request minted a token")]
        if ok:
            self.codes[l["i"] - 1][3] = r[1]["response_args"].get("refresh_token")

    def do_refresh(self, l):
        if self.codes[l["i"] - 1] is None:
            return
        code, sid, st, rt = self.codes[l["i"] - 1]
        if not rt:
            return
        c = self.server.endpoint_context.session_manager.decrypt_session_id(sid)[1]
        r = call(self.server, "token", {"grant_type": "refresh_token", "refresh_token": rt, "client_id": c, "client_secret": SECRET[c]})
        if r[0] != "ok":
            return [Div({"C11"}, "refresh without a verifier refused: %s" % (r[1:],))]
        self.codes[l["i"] - 1][3] = r[1]["response_args"].get("refresh_token") or rt

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, self.flavour, plain=True)
