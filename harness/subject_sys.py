"""Drives real servers along behaviours of spec/Subject.tla."""
import json, random
from urllib.parse import urlencode
import opsys
from opsys import CLOCK, call, make_server, base_conf, add_client, ISS, is_error, reload_server
from engine import Div
from cryptojwt.jws.jws import factory
from sso_sys import UA, PAGE

TICK = 400
SECRET = {c: "hemligt_hemligt_hemligt_hemligt_%s" % c for c in ("c1", "c2", "c3")}
NAMES = [("diana", "bob"), ("u", "uu"), ("bob", "Bob"), ("user@example.org", "user@example.com"), ("1", "11"), ("\u00e5sa", "asa"),
         ("diana", "diana "), ("a" * 300, "a" * 301)]
HOSTS = [("one.example.com", "two.example.com"), ("example.com", "www.example.com"), ("example.com", "example.com:8443"), ("example.com", "example.org")]


class SubjectSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        names, hosts = self.rnd.choice(NAMES), self.rnd.choice(HOSTS)
        if cfg["name"] == "concat":
            names, hosts = ("bob", "bobby"), ("byexample.com", "example.com")
        self.user = dict(zip(("u1", "u2"), names))
        self.host = dict(zip(("s1", "s2"), hosts))
        long = 10 ** 7
        rules = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1, "expires_in": long},
                 "access_token": {"expires_in": long},
                 "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"], "expires_in": long}}
        # attributes that must not be taken for the subject
        db = {n: {"name": n, "sub": "not-" + n, "username": n} for n in names}
        sp = {"password": "sessionpasswordsessionpassword", "salt": "somesalt" * 4} if self.rnd.random() < .5 else {}
        if cfg["func"] == "class":
            k = lambda: {"salt": "s4lt" + "x" * self.rnd.randrange(5)} if self.rnd.random() < .5 else {
                "filename": "%s/salt_%d_%d" % (opsys.SCRATCH, seed, self.rnd.randrange(10 ** 9))}
            sp["sub_func"] = {"public": {"class": "oidcop.session.manager.PublicID", "kwargs": k()},
                              "pairwise": {"class": "oidcop.session.manager.PairWiseID", "kwargs": k()}}
        byscope = {"add_claims_by_scope": True}
        self.conf = base_conf("oidc", usage_rules=rules, grant_expires_in=long, code_lifetime=long, token_lifetime=long, refresh_lifetime=long,
                              id_token_kwargs=dict(byscope, lifetime=long), introspection_kwargs=dict(byscope), access_kwargs=dict(byscope),
                              session_params=sp or None,
                              authentication={"ua": {"acr": "pwd", "class": UA, "kwargs": {"expires_in": long}}},
                              extra={"userinfo": {"class": "oidcop.user_info.UserInfo", "kwargs": {"db": db}}})
        self.server = make_server(self.conf, "oidc")
        self.uri = {}
        for i, c in enumerate(sorted(SECRET)):
            k = cfg["cl"][c]
            h = self.host[k["sector"]]
            kw = {"subject_type": k["type"]}
            if k["type"] == "public" and self.rnd.random() < .5:
                del kw["subject_type"]
            if k["via"] == "uri":
                kw["sector_identifier_uri"] = "https://%s/%s/sector.json" % (h, self.rnd.choice(["x", "y"]))
                uris = ["https://%s.example.net/cb" % c, "https://other.%s.example.net/cb" % c]
            else:
                uris = ["https://%s/%s/cb" % (h, c), "https://%s/%s/cb2" % (h, c)]
            self.uri[c] = uris
            add_client(self.server, c, SECRET[c], redirect_uris=[(u, {}) for u in uris], **kw)

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 25

    def begin(self, walk):
        self.n += 1
        self.auths = []
        sm = self.server.endpoint_context.session_manager
        sm.db = type(sm.db)()
        # identifiers outlive walks: the same server serves all of them
        if self.n == 1:
            self.sub_of, self.term_of = {}, {}
        for t in [t for t in self.sub_of if "ephemeral" in t]:
            old = self.sub_of.pop(t)
            self.term_of[old] = "earlier " + t

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    # ------------------------------------------------------------------
    def concrete(self, term):
        p = [x.strip(' "<>') for x in term.split(",")]
        return p

    def judge(self, l, subs):
        """subs: {where: sub} seen for one authorization"""
        t = l["sub"]
        for w, s in subs.items():
            if not isinstance(s, str) or not s:
                return [Div({"C14"}, "%s: %s names the subject %r" % (t, w, s))]
            if t in self.sub_of and s != self.sub_of[t]:
                return [Div({"C14"}, "%s is %s, but %s says %s" % (self.name(t), self.sub_of[t], w, s))]
            if s in self.term_of and self.term_of[s] != t:
                return [Div({"C14"}, "%s and %s are both %s" % (self.name(t), self.name(self.term_of[s]), s), key=self.key(t, self.term_of[s]))]
            self.sub_of[t] = s
            self.term_of[s] = t
        return []

    def name(self, t):
        p = self.concrete(t)
        if p[0] == "ephemeral":
            return t
        return "%s %s" % (p[0], [self.user.get(x, self.host.get(x, x)) for x in p[1:]])

    def key(self, t1, t2):
        a, b = self.concrete(t1), self.concrete(t2)
        if a[0] == b[0] == "pairwise" and a != b:
            j = lambda p: self.user[p[1]] + self.host[p[2]]
            if j(a) == j(b):
                return "pairwise: user and sector run into each other"
        return ""

    def request(self, c):
        n = self.rnd.randrange(10 ** 9)
        return {"client_id": c, "redirect_uri": self.rnd.choice(self.uri[c]), "scope": "openid offline_access", "state": "s%d" % n, "nonce": "n%d" % n,
                "prompt": "consent", "response_type": self.rnd.choice(["code", "code id_token", "code id_token token"])}

    def send(self, q, cookies):
        ep = self.server.server_get("endpoint", "authorization")
        info = {"headers": {}}
        if cookies:
            info["cookie"] = cookies
        req = ep.parse_request(urlencode(q), http_info=info)
        if is_error(req):
            return req, None
        return req, ep.process_request(req, http_info=info)

    def take(self, l, q, r, login=None):
        a = dict(r["response_args"])
        s = {"u": l.get("u"), "c": q["client_id"], "q": q, "a": a, "at": None,
             "cookie": [{"name": x["name"], "value": x["value"]} for x in r["cookie"] if x["name"] == "oidc_op"]}
        subs = {}
        if "id_token" in a:
            subs["the ID token (authorization endpoint)"] = factory(a["id_token"]).jwt.payload()["sub"]
        if "access_token" in a:
            subs.update(self.places(s, a["access_token"]))
        return s, subs

    def do_login(self, l):
        q = self.request(l["c"])
        req, r = self.send(q, None)
        if r is None or r.get("http_response") != PAGE:
            return [Div({"C14"}, "no login page: %s %s" % (req, r))]
        ep = self.server.server_get("endpoint", "authorization")
        sid = ep.create_session(req, self.user[l["u"]], "pwd", 0, self.server.endpoint_context.authn_broker.db["ua"]["method"])
        s, subs = self.take(l, q, ep.authz_part2(req, sid))
        self.auths.append(s)
        return self.judge(l, subs)

    def do_sso(self, l):
        old = self.auths[l["i"] - 1]
        q = self.request(l["c"])
        req, r = self.send(q, old["cookie"])
        if r is None or "response_args" not in r or is_error(r):
            return [Div({"C14"}, "single sign-on refused: %s %s" % (req, r))]
        s, subs = self.take(l, q, r)
        self.auths.append(s)
        return self.judge(l, subs)

    def do_again(self, l):
        old = self.auths[l["i"] - 1]
        req, r = self.send(old["q"], old["cookie"])
        if r is None or "response_args" not in r or is_error(r):
            return [Div({"C14"}, "the same request again refused: %s %s" % (req, r))]
        s, subs = self.take(l, old["q"], r)
        if old["at"] is None:
            s["u"] = old["u"]
            self.auths[l["i"] - 1] = s
        return self.judge(l, subs)

    def places(self, s, at):
        subs = {}
        r = call(self.server, "userinfo", {}, http_info={"headers": {"authorization": "Bearer " + at}})
        subs["userinfo"] = r[1]["response_args"]["sub"] if r[0] == "ok" else r
        r = call(self.server, "introspection", {"token": at, "client_id": s["c"], "client_secret": SECRET[s["c"]]})
        subs["introspection of the access token"] = r[1]["response_args"].get("sub") if r[0] == "ok" else r
        subs["the access token"] = factory(at).jwt.payload()["sub"]
        return subs

    def tokens(self, s, a, what):
        s["at"], s["rt"] = a["access_token"], a["refresh_token"]
        subs = {"the ID token (%s)" % what: factory(a["id_token"]).jwt.payload()["sub"]}
        subs.update(self.places(s, s["at"]))
        r = call(self.server, "introspection", {"token": s["rt"], "client_id": s["c"], "client_secret": SECRET[s["c"]]})
        subs["introspection of the refresh token"] = r[1]["response_args"].get("sub") if r[0] == "ok" else r
        return subs

    def do_look(self, l):
        s = self.auths[l["i"] - 1]
        if s["at"]:
            return self.judge(l, self.places(s, s["at"]))
        r = call(self.server, "token", {"grant_type": "authorization_code", "code": s["a"]["code"], "client_id": s["c"], "client_secret": SECRET[s["c"]],
                                        "redirect_uri": s["q"]["redirect_uri"]})
        if r[0] != "ok":
            return [Div({"C14"}, "code refused: %s" % (r[1:],))]
        return self.judge(l, self.tokens(s, r[1]["response_args"], "token endpoint"))

    def do_refresh(self, l):
        s = self.auths[l["i"] - 1]
        r = call(self.server, "token", {"grant_type": "refresh_token", "refresh_token": s["rt"], "client_id": s["c"], "client_secret": SECRET[s["c"]]})
        if r[0] != "ok":
            return [Div({"C14"}, "refresh refused: %s" % (r[1:],))]
        return self.judge(l, self.tokens(s, r[1]["response_args"], "refresh"))

    def do_tick(self, l):
        CLOCK.advance(TICK)

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, "oidc")
