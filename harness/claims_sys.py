"""Drives real servers along behaviours of spec/Claims.tla."""
import json, random
from urllib.parse import urlencode
import opsys
from opsys import CLOCK, call, make_server, base_conf, add_client, ISS, is_error, reload_server, JWT
from engine import Div
from cryptojwt.jws.jws import factory

SECRET = {c: "hemligt_hemligt_hemligt_hemligt_%s" % c for c in ("c1", "c2")}
NAME = {"n": "name", "k": "nickname", "w": "website", "e": "email", "v": "email_verified", "x": "eduperson_x", "z": "secret_z"}
LETTER = {v: k for k, v in NAME.items()}
DB = {
    "u1": {"name": "Diana Krall", "nickname": "D", "email": "diana@example.org", "email_verified": True,
           "eduperson_x": ["member", "student"], "secret_z": "zD", "unasked": "uD"},
    "u2": {"name": "Bob Dylan", "nickname": "B", "email": "bob@example.org", "email_verified": False,
           "eduperson_x": ["guest"], "secret_z": "zB", "unasked": "uB"},
}
MAPS = {
    "own": {"openid": ["sub"], "profile": ["name"], "email": ["email"], "xs": ["eduperson_x", "nickname", "secret_z"], "offline_access": []},
    "def": {"openid": ["sub"], "profile": ["name", "given_name", "nickname", "website"], "email": ["email", "email_verified"],
            "xs": ["eduperson_x"], "offline_access": []},
    "cl": {"openid": ["sub"], "profile": ["email", "nickname"], "email": ["email_verified", "secret_z"], "xs": [], "offline_access": []},
    "few": {"openid": ["sub"], "profile": ["name", "website"], "offline_access": []},
}
ALLOWED = {"some": ["openid", "offline_access", "email", "xs"], "none": ["openid", "offline_access"]}
RT = {"code": "code", "id": "id_token", "it": "id_token token", "ci": "code id_token", "cit": "code id_token token", "token": "token"}
POINTS = ["userinfo", "id_token", "introspection", "access_token"]


def other(v):
    return {"x": 1} if isinstance(v, dict) else ["nobody"] if isinstance(v, list) else (not v) if isinstance(v, bool) else v + "x"


class ClaimsSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        self.flavour = cfg["flavour"]
        kw = {p: self.module(p) for p in POINTS}
        long = 10 ** 7
        rules = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1, "expires_in": long},
                 "access_token": {"expires_in": long},
                 "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"], "expires_in": long}}
        extra = {"scopes_to_claims": MAPS[cfg["map"]], "userinfo": {"class": "oidcop.user_info.UserInfo", "kwargs": {"db": DB}}}
        if len(cfg["allowed"]) < 3:
            extra["allowed_scopes"] = ["openid", "offline_access"] + sorted(cfg["allowed"])
        self.conf = base_conf(self.flavour, usage_rules=rules, grant_expires_in=long, code_lifetime=long, token_lifetime=long,
                              refresh_lifetime=long, userinfo_kwargs=kw["userinfo"], id_token_kwargs=kw["id_token"],
                              introspection_kwargs=kw["introspection"], access_kwargs=kw["access_token"],
                              capabilities=dict(opsys.CAPABILITIES, scopes_supported=["openid", "offline_access", "profile", "email", "xs"]),
                              extra=extra)
        self.server = make_server(self.conf, self.flavour)
        self.signed = {c: self.rnd.random() < .3 for c in SECRET}
        for c in SECRET:
            k = cfg["cl"][c]
            e = {"add_claims": {"by_scope": {p: k["by"][p] == "T" for p in POINTS if k["by"][p] != "-"},
                                "always": {p: self.specs(k["always"][p], lists=True) for p in POINTS}}}
            if not e["add_claims"]["by_scope"] and self.rnd.random() < .5:
                del e["add_claims"]["by_scope"]
            e["add_claims"]["always"] = {p: v for p, v in e["add_claims"]["always"].items() if v}
            if k["map"] != "-":
                e["scopes_to_claims"] = MAPS[k["map"]]
            if k["allowed"] != "all":
                e["allowed_scopes"] = ALLOWED[k["allowed"]]
            if self.signed[c]:
                e["userinfo_signed_response_alg"] = self.rnd.choice(["RS256", "ES256"])
            add_client(self.server, c, SECRET[c], **e)

    def spec(self, x, r, user=None):
        """a claim's restriction"""
        v = DB[user or "u1"].get(NAME[x], "here")
        f = {"null": None, "ess": {"essential": True}, "val": {"value": v}, "vals": {"values": [other(v), v]},
             "essval": {"essential": True, "value": v}, "valx": {"value": other(v)}, "valsx": {"values": [other(v)]},
             "essvalx": {"value": other(v), "essential": True}, "empty": {}, "valvals": {"value": other(v), "values": [v]}}[r]
        if r == "ess" and self.rnd.random() < .4:
            f = {"essential": False}
        return f

    def specs(self, d, lists=False, user=None):
        # what configurations demand of a value is about u1's; see expectations for u2 in `adjust'
        d = {x: r for x, r in d.items() if r != "no"}
        if lists and all(r == "null" for r in d.values()) and self.rnd.random() < .6:
            return [NAME[x] for x in d]
        items = list(d.items())
        self.rnd.shuffle(items)
        return {NAME[x]: self.spec(x, r, user) for x, r in items}

    def module(self, p):
        m = self.cfg["rp"][p]
        kw = {}
        b = self.specs(m["base"])
        if b:
            kw["base_claims"] = b
        if m["scope"] or p == "userinfo" or self.rnd.random() < .3:
            kw["add_claims_by_scope"] = m["scope"]
        if m["per"]:
            kw["enable_claims_per_client"] = True
        a = self.specs(m["always"], lists=True)
        if a:
            kw["always_add_claims"] = a
        return kw

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 30

    def begin(self, walk):
        self.n += 1
        self.slots = {}

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    # ------------------------------------------------------------------
    def judge(self, s, where, got, rel):
        """are the claims in `got' the right ones and the user's?"""
        divs = []
        have = {LETTER.get(k, k) for k in got if k in DB["u1"] or k in LETTER}
        must, may = set(rel["must"]), set(rel["may"])
        what = "%s for %s at %s, scope %s, claims %s" % (where, s["u"], s["c"], s["scope"], s["claims"])
        if have - may:
            divs.append(Div({"C15"}, "%s: releases %s that nothing selected" % (what, sorted(have - may))))
        if must - have:
            divs.append(Div({"C15"}, "%s: lacks %s" % (what, sorted(must - have))))
        for k in have:
            n = NAME.get(k, k)
            v = DB[s["u"]].get(n)
            g = got[n]
            if g != v and [g] != v:
                divs.append(Div({"C15"}, "%s: %s is %r, the user's is %r" % (what, n, g, v)))
        return divs

    def payload(self, token):
        return factory(token).jwt.payload()

    def idt(self, s, msg, rel, where):
        if "id_token" not in msg:
            return [Div({"C15"}, "%s: no ID token" % where)] if self.flavour == "oidc" else []
        return self.judge(s, where, self.payload(msg["id_token"]), rel)

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, self.flavour)

    def do_forget(self, l):
        self.slots.pop(l["i"])

    def do_auth(self, l):
        c, u, q = l["c"], l["u"], l["q"]
        scope = sorted(q["sc"], key=lambda x: self.rnd.random())
        par = {p: self.specs(q["par"][p], user=u) for p in ("userinfo", "id_token")}
        par = {p: v for p, v in par.items() if v or self.rnd.random() < .1}
        req = {"client_id": c, "redirect_uri": "https://%s.example.com/cb" % c, "response_type": RT[q["rt"]], "state": "s%d" % self.n}
        if self.flavour == "oidc":
            scope = ["openid"] + scope
            req["nonce"] = "nonce"
            if "code" in req["response_type"]:
                scope.insert(self.rnd.randrange(len(scope)) + 1, "offline_access")
                req["prompt"] = "consent"
        if par and self.flavour == "oidc":
            req["claims"] = json.dumps(par) if self.rnd.random() < .7 else par
        if scope:
            req["scope"] = " ".join(scope)
        r = opsys.authorize(self.server, u, urlencode(req) if isinstance(req.get("claims", ""), str) and self.rnd.random() < .5 else req)
        if r[0] != "ok":
            return [Div({"C15"}, "authorization refused: %s" % (r[1:],))]
        a = r[1]["response_args"]
        s = {"u": u, "c": c, "scope": scope, "claims": json.dumps(par), "a": a, "at": a.get("access_token"), "rt": None}
        self.slots[l["i"]] = s
        if "id_token" in a:
            return self.idt(s, a, l["idt"], "ID token (response type %s)" % RT[q["rt"]])

    def do_redeem(self, l):
        s = self.slots[l["i"]]
        r = call(self.server, "token", {"grant_type": "authorization_code", "code": s["a"]["code"], "client_id": s["c"], "client_secret": SECRET[s["c"]],
                                        "redirect_uri": "https://%s.example.com/cb" % s["c"]}, issue_refresh=True)
        if r[0] != "ok":
            return [Div({"C15"}, "code refused: %s" % (r[1:],))]
        a = r[1]["response_args"]
        s["at"], s["rt"] = a["access_token"], a.get("refresh_token")
        return self.idt(s, a, l["idt"], "ID token (token endpoint)")

    def do_refresh(self, l):
        s = self.slots[l["i"]]
        q = {"grant_type": "refresh_token", "refresh_token": s["rt"], "client_id": s["c"], "client_secret": SECRET[s["c"]]}
        if not l["full"] or self.rnd.random() < .3:
            sc = [x for x in s["scope"] if x in l["sc"] or x in ("openid", "offline_access")]
            if sc:
                q["scope"] = " ".join(sc)
        r = call(self.server, "token", q)
        if r[0] != "ok":
            if q.get("scope") is None and not l["full"]:
                return []
            return [Div({"C15"}, "refresh refused: %s %s" % (q.get("scope"), r[1:]))]
        a = r[1]["response_args"]
        s["at"] = a["access_token"]      # and the first refresh token remains good
        return self.idt(s, a, l["idt"], "ID token (refresh, scope %s)" % q.get("scope"))

    def do_look(self, l):
        s = self.slots[l["i"]]
        divs = []
        rel = l["rel"]
        if "userinfo" in rel:
            r = call(self.server, "userinfo", {}, http_info={"headers": {"authorization": "Bearer " + s["at"]}})
            if r[0] != "ok":
                divs.append(Div({"C15"}, "userinfo refused: %s" % (r[1:],)))
            else:
                resp = self.server.server_get("endpoint", "userinfo").do_response(**r[1])["response"]
                info = self.payload(resp) if self.signed[s["c"]] else json.loads(resp)
                divs += self.judge(s, "userinfo", info, rel["userinfo"])
        r = call(self.server, "introspection", {"token": s["at"], "client_id": s["c"], "client_secret": SECRET[s["c"]]})
        if r[0] != "ok" or not r[1]["response_args"].get("active"):
            divs.append(Div({"C15"}, "introspection refused: %s" % (r[1:],)))
        else:
            divs += self.judge(s, "introspection", r[1]["response_args"].to_dict(), rel["introspection"])
        divs += self.judge(s, "access token", self.payload(s["at"]), rel["access_token"])
        return divs
