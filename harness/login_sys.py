"""Drives real servers along behaviours of spec/Login.tla."""
import base64, html, json, os, random, re
from urllib.parse import urlencode, quote
import opsys
from opsys import CLOCK, call, make_server, base_conf, add_client, ISS, is_error, reload_server, JWT
from engine import Div
from oidcmsg.oidc import AuthorizationRequest
from cryptojwt.jws.jws import factory
from cryptojwt.key_jar import build_keyjar

T = {"C28"}
TICK = 500
CID, SECRET = "client1", "hemligt_hemligt_hemligt_hemligt_1"
ACRS = [("urn:x:pwd", "urn:x:pwd2", "urn:x:mfa"), ("1", "2", "11"), ("https://refeds.org/profile/sfa", "https://refeds.org/profile/mfa", "pwd"), ("a", "ab", "A")]
NAMES = [("diana", "bob"), ("u", "uu"), ("ann", "Ann"), ("1", "11"), ("user@example.org", "user@example.com")]
TEMPLATE = """<form action="{{ action }}" method="post"><input type="hidden" name="token" value="{{ token }}"></form>"""
_alien = None


class LoginSystem:
    def __init__(self, cfg, seed=0, params=None):
        global _alien
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        rnd = self.rnd
        self.acr = dict(zip(("a1", "a2", "a3"), rnd.choice(ACRS)), a9="urn:none:such")
        names = rnd.choice(NAMES)
        self.user = dict(zip(("u1", "u2"), names))
        pw = rnd.choice([("krall", "dylan"), ("Pa55 word", "Pa55 word2"), ("x" * 40, "x" * 41), ("a%b+c&d=e", "a%b+c&d=f"), ("L\u00f6sen", "Losen"), ("secret", "Secret1")])
        self.pw = dict(zip(("u1", "u2"), pw))
        tag = "%d_%d" % (seed % 10 ** 9, rnd.randrange(10 ** 9))
        db = os.path.join(opsys.SCRATCH, "pw_%s.json" % tag)
        json.dump({self.user[u]: self.pw[u] for u in self.pw}, open(db, "w"))
        td = os.path.join(opsys.SCRATCH, "tmpl")
        os.makedirs(td, exist_ok=True)
        with open(os.path.join(td, "user_pass.jinja2.%s" % os.getpid()), "w") as f:
            f.write(TEMPLATE)
        os.replace(os.path.join(td, "user_pass.jinja2.%s" % os.getpid()), os.path.join(td, "user_pass.jinja2"))
        long = 10 ** 7
        rules = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1, "expires_in": long},
                 "access_token": {"expires_in": long},
                 "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"], "expires_in": long}}
        authn = {}
        for i, m in enumerate(cfg["methods"], 1):
            authn["m%d" % i] = {"acr": self.acr[m["acr"]],
                                "class": {"page": "oidcop.user_authn.user.UserPassJinja2", "auto": "oidcop.user_authn.user.NoAuthn", "basic": "oidcop.user_authn.user.BasicAuthn"}[m["kind"]],
                                "kwargs": {"page": {"verify_endpoint": "verify/m%d" % i, "template": "user_pass.jinja2", "db": {"class": "oidcop.util.JSONDictDB", "kwargs": {"filename": db}},
                                                    "expires_in": long},
                                           "auto": {"user": self.user["u1"]},
                                           "basic": {"pwd": {self.user[u]: self.pw[u] for u in self.pw}}}[m["kind"]]}
        extra = {"userinfo": {"class": "oidcop.user_info.UserInfo", "kwargs": {"db": {n: {"name": n, "email": n + "@x"} for n in names}}}, "template_dir": td}
        if cfg["lh"]:
            extra["login_hint2acrs"] = {"class": "oidcop.login_hint.LoginHint2Acrs", "kwargs": {"scheme_map": {"email": [self.acr[a] for a in cfg["lh"]]}}}
        self.conf = base_conf("oidc", usage_rules=rules, grant_expires_in=long, code_lifetime=long, token_lifetime=long, refresh_lifetime=long,
                              id_token_kwargs={"lifetime": long}, authentication=authn, extra=extra)
        self.server = make_server(self.conf, "oidc")
        add_client(self.server, CID, SECRET)
        if _alien is None:
            _alien = build_keyjar(opsys.KEYDEFS2)

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 25

    def begin(self, walk):
        self.n += 1
        self.pages, self.s = [], []
        sm = self.server.endpoint_context.session_manager
        sm.db = type(sm.db)()

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    def do_tick(self, l):
        CLOCK.advance(TICK)

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, "oidc")

    def ep(self):
        return self.server.server_get("endpoint", "authorization")

    def password(self, u, pw):
        own, other = self.pw[u], self.pw["u2" if u == "u1" else "u1"]
        return {"right": own, "others": other, "empty": "", "case": own.swapcase() if own.swapcase() != own else own + "x",
                "wrong": self.rnd.choice([own + "x", own[:-1], "None", "*", " " + own, own + " ", self.user[u] + "zz"])}[pw]

    def request(self, r):
        rnd = self.rnd
        n = rnd.randrange(10 ** 9)
        q = {"client_id": CID, "redirect_uri": "https://client1.example.com/cb", "response_type": "code", "scope": "openid", "state": "st%d" % n, "nonce": "n%d" % n}
        if r["acrv"]:
            q["acr_values"] = " ".join(self.acr[a] for a in r["acrv"])
        cv = [self.acr[a] for a in r["cv"]]
        e = rnd.choice([{}, {"essential": True}])
        c = {"other": {"id_token": {"email": None}}, "userinfo": {"userinfo": {"email": None}}, "null": {"id_token": {"acr": None}}, "essential": {"id_token": {"acr": {"essential": True}}},
             "value": {"id_token": {"acr": dict(e, value=cv[0] if cv else None)}}, "values": {"id_token": {"acr": dict(e, values=cv)}}, "none": None}[r["claim"]]
        if c is not None:
            q["claims"] = json.dumps(c)
        if r["lh"]:
            q["login_hint"] = {"email": "email:x@example.org", "odd": rnd.choice(["tel:1234", "x", "emails:x"])}[r["lh"]]
        return q

    def send(self, q, cookies=None, **kw):
        info = {"headers": {}}
        if cookies is not None:
            info["cookie"] = cookies
        try:
            req = self.ep().parse_request(dict(q) if self.rnd.random() < .5 else urlencode(q), http_info=info)
            if is_error(req):
                return "refused", req
            res = self.ep().process_request(req, http_info=info, **kw)
        except Exception as e:
            return "refused", repr(e)
        if "http_response" in res:
            return "page", res["http_response"]
        if is_error(res):
            return "refused", res
        return "answer", res

    def take(self, q, res, u, r, at=None):
        ra = res["response_args"]
        self.s.append({"u": u, "code": ra["code"], "q": q, "at": CLOCK.now if at is None else at, "cookie": [x for x in res["cookie"] if x["name"] == "oidc_op"], "idt": None, "told": False})
        if ra.get("state") != q["state"]:
            return [Div(T, "the answer is to another request: state %s instead of %s" % (ra.get("state"), q["state"]))]
        return []

    def credentials(self, l):
        if l["k"] != "basic":
            return {}
        return {"authn": "Basic " + base64.b64encode(("%s:%s" % (quote(self.user[l["u"]]), self.password(l["u"], l["pw"]))).encode()).decode()}

    def do_ask(self, l):
        r, m, k = l["r"], l["m"], l["k"]
        q = self.request(r)
        what, x = self.send(q, **self.credentials(l))
        asked = {a: b for a, b in q.items() if a in ("acr_values", "claims", "login_hint")}
        if k == "none":
            return [] if what == "refused" else [Div(T, "%s: no method offers that, yet there is a %s" % (asked, what))]
        if k == "page":
            if what != "page" or not isinstance(x, str) or "<form" not in x:
                return [Div(T, "%s: login page of method %d expected, got %s %s" % (asked, m, what, str(x)[:200]))]
            action = re.search(r'action="([^"]*)"', x).group(1)
            tok = html.unescape(re.search(r'value="([^"]*)"', x).group(1))
            self.pages.append({"q": q, "action": action, "tok": tok})
            if action != "verify/m%d" % m:
                return [Div(T, "%s: login page of %s instead of method %d" % (asked, action, m))]
            return []
        u = "u1" if k == "auto" else l["u"]
        if k == "basic" and l["pw"] != "right":
            return [] if what == "refused" else [Div(T, "a %s password: %s" % (l["pw"], what))]
        if what != "answer":
            return [Div(T, "%s: should be logged in by method %d (%s), got %s %s" % (asked, m, k, what, str(x)[:200]))]
        return self.take(q, x, u, r)

    def token(self, p, how):
        t = p["tok"]
        rnd = self.rnd
        b = lambda d: base64.urlsafe_b64encode(json.dumps(d).encode()).decode().rstrip("=")
        h, pl, sg = t.split(".")
        d = json.loads(base64.urlsafe_b64decode(pl + "=" * (-len(pl) % 4)))
        if how == "own":
            return t
        if how == "altered":
            x = rnd.random()
            if x < .5:
                others = [a for a in self.acr.values() if a != d["authn_class_ref"]]
                return h + "." + b(dict(d, authn_class_ref=rnd.choice(others))) + "." + sg
            if x < .8:
                return h + "." + b(dict(d, query=d["query"].replace("client1", "client2"))) + "." + sg
            return t[:-8] + ("AAAA" if t[-8:-4] != "AAAA" else "BBBB") + t[-4:]
        if how == "none":
            return b({"alg": "none"}) + "." + pl + "."
        if how == "foreign":
            j = JWT(_alien, iss=ISS, sign_alg="RS256")
            return j.pack(payload={k: v for k, v in d.items() if k not in ("iss", "iat", "exp", "aud")})
        for i in range(len(self.s)):
            if self.s[i]["idt"]:
                return self.s[i]["idt"]
        return "x"

    def do_submit(self, l):
        p = self.pages[l["p"] - 1]
        ctx = self.server.endpoint_context
        tok = self.token(p, l["tok"])
        try:       # as an application does it
            method = ctx.endpoint_to_authn_method[p["action"]]
            user = method.verify(username=self.user[l["u"]], password=self.password(l["u"], l["pw"]))
            args = method.unpack_token(tok)
            req = AuthorizationRequest().from_urlencoded(args["query"])
            sid = self.ep().create_session(req, user, args["authn_class_ref"], args["iat"], method)
            res = self.ep().authz_part2(request=req, session_id=sid)
            bad = is_error(res)
        except Exception as e:
            res, bad = repr(e), True
        if bad != (not l["ok"]):
            return [Div(T, "login as %s with a %s password and a %s page token: %s" % (self.user[l["u"]], l["pw"], l["tok"], str(res)[:300] if bad else "accepted"))]
        if l["ok"]:
            return self.take(p["q"], res, l["u"], None)

    def tell(self, i, ok, l=None):
        s = self.s[i]
        if s["told"]:
            return []
        s["told"] = True
        r = call(self.server, "token", {"client_id": CID, "client_secret": SECRET, "grant_type": "authorization_code", "code": s["code"], "redirect_uri": s["q"]["redirect_uri"]})
        idt = r[1]["response_args"].get("id_token") if r[0] == "ok" else None
        s["idt"] = idt
        if idt is None and ok:
            return [Div(T, "no ID token for a login of the class asked for (%s): %s" % (s["q"].get("claims"), r[:3]))]
        s["pl"] = factory(idt).jwt.payload() if idt else None
        return []

    def do_tell(self, l):
        i = l["s"] - 1
        d = self.tell(i, l["ok"])
        p = self.s[i].get("pl")
        if d or not p:
            return d
        s = self.s[i]
        if p.get("acr") != self.acr[l["acr"]]:
            d.append(Div(T, "ID token: acr %s, the login was by %s" % (p.get("acr"), self.acr[l["acr"]])))
        if p.get("auth_time") != s["at"]:
            d.append(Div(T, "ID token: auth_time %s, the login was at %s" % (p.get("auth_time"), s["at"])))
        if p.get("nonce") != s["q"]["nonce"]:
            d.append(Div(T, "ID token: the nonce of another request"))
        sid = self.server.endpoint_context.session_manager.get_session_info_by_token(s["code"])["user_id"]
        if sid != self.user[l["u"]]:
            d.append(Div(T, "session of %s, it was %s who logged in" % (sid, self.user[l["u"]])))
        for o in self.s[:]:
            if o.get("pl") and (o["pl"]["sub"] == p["sub"]) != (o["u"] == s["u"]):
                d.append(Div(T, "subjects of logins of %s and %s: %s %s" % (o["u"], s["u"], o["pl"]["sub"], p["sub"])))
        return d

    def do_again(self, l):
        q = self.request(l["r"])
        s = self.s[l["s"] - 1]
        what, x = self.send(q, cookies=s["cookie"], **self.credentials(l))
        if not l["ok"]:
            return [] if what == "refused" else [Div(T, "%s: yet there is a %s" % ("no method offers what is asked for" if l["k"] == "none" else "a wrong password", what))]
        if what != "answer":
            return [Div(T, "login of session %d does not count for another request of the client: %s %s" % (l["s"], what, str(x)[:300]))]
        return self.take(q, x, l["u"], l["r"], None if l["new"] else s["at"])
