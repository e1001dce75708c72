"""Drives real servers along behaviours of spec/Core.tla."""
import base64, json, os, random
import opsys
from opsys import CLOCK, call, authorize, make_server, base_conf, add_client, JWT
from engine import Div
from sso_sys import UA, PAGE
from oidcmsg.oidc import AuthorizationRequest

# what clients and users are called: also so that one name is the beginning or the end of another
CLIENTS = [("c1", "c2", "c3"), ("app", "app2", "app22"), ("xapp", "app", "pp"), ("client 1", "client", "client:1"),
           ("https://rp.example.com/a", "https://rp.example.com/a/b", "https://rp.example.com/")]
PEOPLE = [("u1", "u2"), ("bo", "bob"), ("u;1", "u;"), ("x@example.org", "x@example.or"), ("\u00e5sa", "asa"), ("a b", "a"),
          ("bo", "bo;;{c1}"), ("100%", "100%25"), ("x", "x;;{c1};;{c2}")]

KIND = {"code": "authorization_code", "at": "access_token", "rt": "refresh_token", "idt": "id_token"}
NEVER = 99
SECRET = {"c1": "hemligt_hemligt_hemligt_hemligt_1", "c2": "hemligt_hemligt_hemligt_hemligt_2",
          "c3": "hemligt_hemligt_hemligt_hemligt_3"}

# properties violated when something honoured should have been refused, by reason
WHY = {"replay": {"C01", "C04"}, "api": {"C04", "C03"}, "rotate": {"C06", "C03"}, "exp": {"C03", "C25"},
       "used": {"C03"}, "grev": {"C04", "C03"}, "gexp": {"C03", "C25"}, "gone": {"C13", "C03", "C04"},
       "client": {"C02"}, "redir": {"C02"}, "kind": {"C03"}, "gtype": {"C06"}, "mints": {"C06", "C24"},
       "scope": {"C05"}}


def rule_to_conf(r, tick, eps):
    out = {}
    if not r:
        return {}
    if "mints" in r:
        out["supports_minting"] = [KIND[k] for k in r["mints"]]
    if "maxu" in r and r["maxu"]:
        out["max_usage"] = r["maxu"]
    if "exp" in r:
        out["expires_in"] = r["exp"] * tick + eps
    return out


def rules_to_conf(rs, tick, eps):
    if not rs:
        return {}
    return {KIND[k]: rule_to_conf(v, tick, eps) for k, v in rs.items()}


class CoreSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg = cfg
        self.rnd = random.Random(seed)
        p = params or {}
        self.tick = p.get("tick") or self.rnd.choice([60, 100])
        self.eps = p.get("eps") or self.rnd.choice([1, self.tick - 1])
        self.tokens = cfg.get("tokens", "jwt")
        self.seed = seed
        self.n = 0
        self.stats = {}
        self.last_reload = False
        self.stranger = None
        self.probe_refused = 0.35
        CLOCK.reset()
        rules = rules_to_conf(cfg["rules"], self.tick, self.eps)
        caps = dict(opsys.CAPABILITIES)
        caps["grant_types_supported"] = list(cfg["gtypes"]) + ["implicit"]
        gexp = 0 if cfg["gexp"] == NEVER else cfg["gexp"] * self.tick + self.eps
        # the handlers' own lifetimes must not matter where the rules say how long tokens live
        base = cfg["rules"] or {}

        def exp_known(k):
            def one(own):
                own = own or {}
                return "exp" in (own.get(k) or {}) or ("exp" in (base.get(k) or {}) and (k not in own or bool(own[k])))
            return all(one(cl["rules"]) for cl in cfg["client"].values())
        self.hl = {k: p.get("hl", {}).get(k) or (self.rnd.choice([self.tick // 3, 10 ** 6]) if exp_known(k) else 10 ** 6)
                   for k in ("at", "rt")}
        self.auth = 10 ** 6 if cfg["auth"] == NEVER else cfg["auth"] * self.tick + self.eps
        self.conf = base_conf(cfg["flavour"], usage_rules=rules, grant_expires_in=gexp, token_kind=self.tokens,
                              authentication={"ua": {"acr": "pwd", "class": UA, "kwargs": {"expires_in": self.auth}}},
                              code_lifetime=10 ** 6, token_lifetime=self.hl["at"], refresh_lifetime=self.hl["rt"],
                              capabilities=caps, endpoints={"token": {"revoke_refresh_on_issue": cfg["revoke"]}})
        if not rules and p.get("norules", self.rnd.random() < .5):  # no server rules: empty or not even mentioned
            del self.conf["authz"]["kwargs"]["grant_config"]["usage_rules"]
        self.server = make_server(self.conf, cfg["flavour"])
        self.cn = dict(zip(("c1", "c2", "c3"), p.get("clients") or self.rnd.choice(CLIENTS)))
        self.un = dict(zip(("u1", "u2"), p.get("users") or [u.format(**self.cn) for u in self.rnd.choice(PEOPLE)]))
        for c, cl in cfg["client"].items():
            kw = {"redirect_uris": [(self.redirect(c), {})]}
            if cl["rules"]:
                kw["token_usage_rules"] = rules_to_conf(cl["rules"], self.tick, self.eps)
            if cl["revoke"] != "unset":
                kw["revoke_refresh_on_issue"] = cl["revoke"] == "yes"
            if list(cl["gtypes"]) != ["unset"]:
                kw["grant_types_supported"] = list(cl["gtypes"])
            add_client(self.server, self.cn[c], SECRET[c], **kw)

    def params(self):
        return {"tick": self.tick, "eps": self.eps, "hl": self.hl, "seed": self.seed, "clients": self.cn, "users": self.un, "nth_walk_on_server": self.n}

    def worn(self):
        return self.n >= 60

    # -- one walk
    def begin(self, walk):
        self.n += 1
        self.pref = "w%d_" % self.n
        self.t0 = CLOCK.now
        self.tok = {}       # index -> dict(value, k, g, par, scope, exp, iat, dead)
        self.grant = {}     # index -> dict(u, c, sid, sub, scope, auth)
        self.pending = []
        self.idtokens = []
        self.harmless = set()  # tokens that a refused attempt touched
        self.last_kill = None
        self.model = []
        self.reloaded = False

    def end(self):
        return []

    def user(self, u):
        uid = self.pref + self.un[u]
        db = self.server.endpoint_context.userinfo.db
        if uid not in db:
            db[uid] = {"name": uid, "email": uid + "@example.org", "nickname": u}
        return uid

    def redirect(self, c):
        return "https://%s.example.com/cb" % c

    def expsec(self, tick):
        return None if tick == NEVER else self.t0 + tick * self.tick + self.eps

    # -- steps
    def step(self, l, o):
        divs = getattr(self, "do_" + l["a"])(l) or []
        mutating = l.get("ok") is not False or l.get("why") in ("replay", "mints")
        if not divs and o is not None and l["a"] != "parse" and (
                mutating or self.rnd.random() < self.probe_refused):
            divs = self.probe(l, o)
        self.last_reload = l["a"] == "reload"
        if divs and self.reloaded:
            for d in divs:
                d["after_reload"] = True
        return divs

    def add_tokens(self, new, values):
        for x in new:
            self.tok[x["i"]] = dict(x, value=values[x["k"]], iat=CLOCK.now)

    def do_authz(self, l):
        c, u = l["c"], self.user(l["u"])
        rt = []
        if "code" in l["rt"]:
            rt.append("code")
        if "token" in l["rt"]:
            rt.append("token")
        req = {"client_id": self.cn[c], "redirect_uri": self.redirect(c), "response_type": " ".join(rt),
               "scope": " ".join(sorted(l["scope"], reverse=self.rnd.random() < .5)), "state": "st%d" % len(self.tok),
               "nonce": "n%d" % len(self.tok)}
        if "offline_access" in l["scope"]:
            req["prompt"] = "consent"
        r = self.authorized(u, c, req)
        self.stats["authz_" + self.route] = self.stats.get("authz_" + self.route, 0) + 1
        if r[0] != "ok":
            return [Div({"C10", "C03", "C19", "C13"}, "authorization request (%s) refused: %s" % (self.route, r[1:]))]
        ra = r[1]["response_args"]
        g = len(self.grant) + 1
        self.grant[g] = {"u": u, "c": c, "sid": r[2], "scope": l["scope"], "sub": None, "t": CLOCK.now, "dead": False,
                         "login": self.login_at, "cookie": [k for k in r[1].get("cookie", []) if k["name"] == "oidc_op"]}
        vals = {"code": ra.get("code"), "at": ra.get("access_token")}
        divs = []
        for k, art in (("code", "code"), ("at", "token")):
            if (vals[k] is not None) != (art in l["rt"]):
                divs.append(Div({"C10"}, "response type %s but %s %s" % (l["rt"], art, "issued" if vals[k] else "missing")))
        if divs:
            return divs
        self.add_tokens(l["new"], vals)
        for x in l["new"]:
            if x["k"] == "at":
                divs += self.check_expires_in(x, ra.get("expires_in"))
        if "scope" in ra and set(ra["scope"]) != set(l["scope"]):
            divs.append(Div({"C05"}, "authorization response says scope %s, asked for %s" % (ra["scope"], l["scope"])))
        return divs

    def alive(self, g):
        g = self.grant[g]
        gexp = self.cfg["gexp"]
        return not g["dead"] and (gexp == NEVER or CLOCK.now <= g["t"] + gexp * self.tick + self.eps)

    def authorized(self, u, c, req):
        """The user gives the client what it asks for: the front end creates the session, or the user goes through the
        log in page, or the user's cookie tells who it is."""
        self.login_at = CLOCK.now
        old = [g for g, x in self.grant.items() if x["u"] == u and x["c"] == c and self.alive(g) and x["cookie"] and
               (self.cfg["auth"] == NEVER and CLOCK.now - x["login"] < 9 * 10 ** 5 or x["login"] == CLOCK.now)]
        self.route = self.rnd.choice(["api", "login", "login", "sso", "sso", "sso"])
        if self.route == "sso" and not old:
            self.route = "login"
        if self.route == "api":
            return authorize(self.server, u, req, authn_time=CLOCK.now, valid_until=CLOCK.now + self.auth)
        ep = self.server.server_get("endpoint", "authorization")
        ctx = self.server.endpoint_context
        info = {"headers": {}}
        if self.route == "sso":
            src = self.rnd.choice(old)
            self.login_at = self.grant[src]["login"]
            info["cookie"] = [{"name": k["name"], "value": k["value"]} for k in self.grant[src]["cookie"]]
        try:
            q = ep.parse_request(req, http_info=info)
            if opsys.is_error(q):
                return ("err", q.get("error"), q.get("error_description"))
            res = ep.process_request(q, http_info=info)
            if self.route == "login":
                if res.get("http_response") != PAGE:
                    return ("err", "no log in page", str(res))
                sid = ep.create_session(q, u, "pwd", CLOCK.now, ctx.authn_broker.db["ua"]["method"])
                res = ep.authz_part2(q, sid)
            elif "http_response" in res:
                return ("err", "the user is asked to log in again", str(res))
        except Exception as e:
            return ("err", "exc:" + type(e).__name__, str(e))
        if opsys.is_error(res):
            ra = res.get("response_args") or res
            return ("err", ra.get("error"), ra.get("error_description", ""))
        return ("ok", res, res["session_id"])

    def check_expires_in(self, x, said):
        if x["exp"] == NEVER:
            return []
        want = self.expsec(x["exp"]) - CLOCK.now
        if said is None or int(said) != want:
            return [Div({"C25", "C24"}, "expires_in %s announced, the usage rules say %s" % (said, want))]
        return []

    def tok_request(self, l):
        x = self.tok[l["t"]]
        req = {"client_id": self.cn[l["c"]], "client_secret": SECRET[l["c"]]}
        if l["a"] == "redeem" or (l["a"] == "parse" and l["k"] == "code"):
            req.update(grant_type="authorization_code", code=x["value"])
            owner = self.grant[x["g"]]["c"]
            if l["redir"] == "ok":
                req["redirect_uri"] = self.redirect(owner)
            elif l["redir"] == "other":
                req["redirect_uri"] = self.redirect(owner) + self.rnd.choice(["/other", "?x=1", "#", "/", "X"])
        else:
            req.update(grant_type="refresh_token", refresh_token=x["value"])
            sc = l.get("rscope", l.get("S"))
            if sc:
                req["scope"] = " ".join(sorted(sc))
        return req

    def pkw(self, issue):
        return {} if issue == "none" else {"issue_refresh": issue == "yes"}

    def do_redeem(self, l):
        r = call(self.server, "token", self.tok_request(l), **self.pkw(l["issue"]))
        return self.judge(l, l["t"], r)

    do_refresh = do_redeem

    def do_parse(self, l):
        p = l["p"]
        ep = self.server.server_get("endpoint", "token")
        hi = {"headers": {}, "url": ep.full_path, "method": "POST"}
        try:
            req = ep.parse_request(self.tok_request(dict(p, a="parse")), http_info=hi)
        except Exception as e:
            return [Div({"C03"}, "well formed request not parsed: %r" % e)]
        if opsys.is_error(req):
            return [Div({"C03"}, "request refused when parsed: %s" % req.to_dict())]
        self.pending.append((p, req))
        return []

    def do_process(self, l):
        p, req = self.pending.pop(l["i"] - 1)
        ep = self.server.server_get("endpoint", "token")
        hi = {"headers": {}, "url": ep.full_path, "method": "POST"}
        try:
            res = ep.process_request(req, http_info=hi, **self.pkw(p["issue"]))
            r = ("err", res.get("error"), "") if opsys.is_error(res) else ("ok", res, req)
        except Exception as e:
            r = ("err", "exc:" + type(e).__name__, str(e))
        return self.judge(dict(l, c=p["c"], issue=p["issue"], overlapped=True), p["t"], r)

    def judge(self, l, t, r):
        x = self.tok[t]
        if r[0] == "ok" and not l["ok"]:
            tags = set(WHY[l["why"]])
            if l["why"] == "used" and x["k"] == "code":
                tags |= {"C01"}
            if l.get("overlapped") and x["k"] == "code" and l["why"] in ("used", "replay"):
                tags |= {"C01"}
            if l["why"] == "rotate" or l["why"] == "used":
                tags |= {"C24"} if self.own_rules(x) else set()
            return [Div(tags, "%s of %s by %s succeeded, must be refused (%s)" % (l["a"], x["k"], l["c"], l["why"]),
                        got=list(r[1]["response_args"]))]
        if r[0] != "ok" and l["ok"]:
            tags = {"C03"}
            if t in self.harmless:
                tags.add("C02")
                tags.add("C05")
            if self.own_rules(x):
                tags.add("C24")
            tags |= {"C06", "C25"}
            if self.last_kill:
                tags |= self.last_kill
            return [Div(tags, "%s of a live %s by its owner refused: %s" % (l["a"], x["k"], r[1:3]))]
        if not l["ok"]:
            if l["why"] in ("client", "redir", "scope", "gtype", "kind"):
                self.harmless.add(t)
            if l["why"] == "replay":
                self.last_kill = {"C01"}
            return []
        ra = r[1]["response_args"]
        divs = []
        kinds = {n["k"] for n in l["new"]}
        own = {"C24"} if self.own_rules(x) else set()
        for k, name in (("at", "access_token"), ("rt", "refresh_token")):
            if (ra.get(name) is not None) != (k in kinds):
                divs.append(Div({"C06"} | own, "%s %s at %s" % (name, "handed out" if ra.get(name) else "withheld", l["a"])))
        if ("id_token" in ra) != l["idt"]:
            divs.append(Div({"C06"} | own, "id_token %s at %s" % ("handed out" if "id_token" in ra else "withheld", l["a"])))
        if divs:
            return divs
        vals = {"at": ra["access_token"], "rt": ra.get("refresh_token")}
        known = {y["value"] for y in self.tok.values()}
        for v in vals.values():
            if v in known:
                divs.append(Div({"C01", "C13"}, "a token value was handed out twice"))
        self.add_tokens(l["new"], vals)
        if "id_token" in ra:
            self.idtokens.append(ra["id_token"])
        for n in l["new"]:
            if n["k"] == "at":
                divs += self.check_expires_in(n, ra.get("expires_in"))
        sc = ra.get("scope")
        if isinstance(sc, str):
            sc = sc.split()
        if set(sc or []) != set(l["scope"]):
            divs.append(Div({"C05"}, "answer says scope %s, should be %s" % (sc, l["scope"])))
        return divs

    def own_rules(self, x):
        return any(c["rules"] or c["revoke"] != "unset" for c in self.cfg["client"].values())

    def do_revoke_token(self, l):
        x = self.tok[l["t"]]
        mngr = self.server.endpoint_context.session_manager
        sid = self.grant[x["g"]]["sid"]
        if l["rec"] and self.rnd.random() < .5:
            mngr.get_grant(sid).revoke_token(value=x["value"], recursive=True)
        else:
            mngr.revoke_token(sid, x["value"], recursive=l["rec"])
        self.last_kill = {"C04"}

    def do_revoke_grant(self, l):
        self.server.endpoint_context.session_manager.revoke_grant(self.grant[l["g"]]["sid"])
        self.grant[l["g"]]["dead"] = True
        self.last_kill = {"C04"}

    def do_revoke_client(self, l):
        self.server.endpoint_context.session_manager.revoke_client_session(self.grant[l["g"]]["sid"])
        me = self.grant[l["g"]]
        self.bury(me["u"], me["c"])
        self.last_kill = {"C04"}

    def bury(self, u, c=None):
        for g in self.grant.values():
            if g["u"] == u and c in (None, g["c"]):
                g["dead"] = True

    def do_remove(self, l):
        self.grant[l["g"]]["dead"] = True
        self.server.endpoint_context.session_manager.remove_session(self.grant[l["g"]]["sid"])
        self.last_kill = {"C13"}

    def do_remove_client(self, l):
        self.bury(self.user(l["u"]), l["c"])
        self.server.endpoint_context.session_manager.delete([self.user(l["u"]), self.cn[l["c"]]])
        self.last_kill = {"C13"}

    def do_remove_user(self, l):
        self.bury(self.user(l["u"]))
        self.server.endpoint_context.session_manager.delete([self.user(l["u"])])
        self.last_kill = {"C13"}

    def do_tick(self, l):
        CLOCK.advance(self.tick)

    def do_reload(self, l):
        try:
            new = opsys.reload_server(self.server, self.conf, self.cfg["flavour"])
        except Exception as e:
            return [Div({"C21"}, "dump and reload fails: %r" % e)]
        udb = self.server.endpoint_context.userinfo.db
        new.endpoint_context.userinfo.db.update(udb)
        self.server = new
        self.reloaded = True

    # -- strings that are no tokens
    def strange(self, x, how):
        """a string made from a token, or None"""
        v = x["value"]
        rnd = self.rnd
        if how == "flip":
            i = rnd.randrange(len(v) - 3)
            if v[i] == ".":
                i += 1
            return v[:i] + rnd.choice([c for c in "ABCabcxyz0123456789" if c != v[i]]) + v[i + 1:]
        if how == "cut":
            return rnd.choice([v[:-1], v[:len(v) // 2], v[1:], v.rsplit(".", 1)[0], v.rsplit(".", 1)[0] + ".", v[:1]])
        if how == "longer":
            return rnd.choice([v + "x", v + ".", v + "=", v + "." + v, v + " " + v, "x" + v, v + "\n"])
        if how == "foreign":
            return self.foreign(x["k"])
        if how == "mixed":
            o = [y["value"] for y in self.tok.values() if y["value"] != v]
            if not o:
                return None
            o = rnd.choice(o)
            if v.count(".") == 2 and o.count(".") == 2:
                a, b = v.split("."), o.split(".")
                return ".".join([b[0], b[1], a[2]] if rnd.random() < .5 else [a[0], b[1], a[2]]) if a[1] != b[1] else None
            return v[:len(v) // 2] + o[len(v) // 2:]
        if how == "unsigned":
            if v.count(".") != 2:
                return None
            h = base64.urlsafe_b64encode(json.dumps({"alg": rnd.choice(["none", "None", "NONE", "HS256"])}).encode()).decode().rstrip("=")
            return h + "." + v.split(".")[1] + "." + rnd.choice(["", v.split(".")[2]])
        if how == "inner":    # what a token holds inside or the server uses elsewhere
            sid = self.grant[x["g"]]["sid"]
            return rnd.choice([sid, ";;".join(self.server.endpoint_context.session_manager.decrypt_session_id(sid)), self.grant[x["g"]]["u"],
                               "", " ", "null", "{}", "..", "a.b.c", "\u00e5", "%00", SECRET["c1"], v.split(".")[0] if "." in v else "x"] +
                              [k["value"] for k in self.grant[x["g"]]["cookie"]] + self.idtokens * 3)

    def foreign(self, k):
        """a token of a server of the same name with the same users and clients, but other keys"""
        if self.stranger is None:
            conf = dict(self.conf)
            keydefs = conf.pop("keys")
            conf["keys"] = {"uri_path": "static/jwks.json", "key_defs": keydefs["key_defs"]}
            self.stranger = make_server(conf, self.cfg["flavour"])
            add_client(self.stranger, self.cn["c1"], SECRET["c1"], redirect_uris=[(self.redirect("c1"), {})])
            self.stranger.endpoint_context.userinfo.db["diana"] = {"name": "diana"}
        req = {"client_id": self.cn["c1"], "redirect_uri": self.redirect("c1"), "response_type": "code token",
               "scope": "openid offline_access", "prompt": "consent", "state": "s", "nonce": "n"}
        ra = authorize(self.stranger, "diana", req, authn_time=CLOCK.now, valid_until=CLOCK.now + 1000)[1]["response_args"]
        return ra["access_token"] if k == "at" else ra["code"]

    def do_show(self, l):
        x = self.tok[l["t"]]
        ep, how = l["ep"], l["how"]
        v = x["value"] if how == "as" else self.strange(x, how)
        if v is None or how != "as" and v in [y["value"] for y in self.tok.values()] or (ep == "userinfo" and self.cfg["flavour"] != "oidc"):
            return []
        c = self.grant[x["g"]]["c"]
        self.stats["shown"] = self.stats.get("shown", 0) + 1
        what = "%s made from a %s (%s)" % (how, x["k"], v[:300])
        if ep == "introspection":
            if not v:
                return []
            r = call(self.server, "introspection", {"token": v, "client_id": self.cn[c], "client_secret": SECRET[c]})
            if r[0] != "ok":
                return [Div({"C22"}, "introspection fails for a string, %s: %s" % (what, r[1:]))]
            ra = r[1]["response_args"]
            if ra.get("active") or [k for k, w in ra.items() if k != "active" and w not in (None, "", [])]:
                return [Div({"C22", "C03"}, "introspection of a string that is no token, %s: %s" % (what, ra.to_dict()))]
            return []
        if ep == "userinfo":
            r = call(self.server, "userinfo", {}, http_info={"headers": {"authorization": "Bearer " + v}})
            if (r[0] == "ok") != l["good"]:
                return [Div({"C03"}, "userinfo %s %s" % ("serves" if r[0] == "ok" else "refuses", what))]
            return []
        req = {"client_id": self.cn[c], "client_secret": SECRET[c]}
        if ep == "code":
            req.update(grant_type="authorization_code", code=v, redirect_uri=self.redirect(c))
        else:
            req.update(grant_type="refresh_token", refresh_token=v)
        r = call(self.server, "token", req, **self.pkw("none"))
        if r[0] == "ok":
            return [Div({"C03"} | ({"C02"} if how != "as" else set()), "token endpoint takes %s as a %s" % (what, ep))]

    # -- what everybody sees
    def introspect(self, t, by=None):
        x = self.tok[t]
        c = by or self.grant[x["g"]]["c"]
        return call(self.server, "introspection",
                    {"token": x["value"], "client_id": self.cn[c], "client_secret": SECRET[c]})

    def userinfo(self, t):
        x = self.tok[t]
        return call(self.server, "userinfo", {}, http_info={"headers": {"authorization": "Bearer " + x["value"]}})

    def probe(self, l, o):
        divs = []
        mngr = self.server.endpoint_context.session_manager
        for t, x in self.tok.items():
            g = self.grant[x["g"]]
            why = o["tok"][t - 1]
            r = self.introspect(t)
            self.stats["probes"] = self.stats.get("probes", 0) + 1
            if r[0] != "ok":
                divs.append(Div({"C22"}, "introspection of %s (%s) fails: %s" % (x["k"], why or "live", r[1:])))
                continue
            ra = r[1]["response_args"]
            active = bool(ra.get("active"))
            if x["k"] == "code":
                if active:
                    divs.append(Div({"C22"}, "an authorization code is reported active"))
            elif active and why:
                tags = WHY[why] | {"C22"}
                if self.last_reload:
                    tags |= {"C21"}
                divs.append(Div(tags, "introspection: %s is active, must be dead (%s)" % (x["k"], why)))
            elif not active and not why:
                tags = {"C03", "C22", "C25"} | self.blame(l, t)
                divs.append(Div(tags, "introspection: %s is inactive, must be live after %s" % (x["k"], l["a"])))
            elif active:
                divs += self.check_introspection(x, g, ra)
            elif [k for k, v in ra.items() if k != "active" and v not in (None, "", [])]:
                divs.append(Div({"C22"}, "inactive answer reveals %s" % ra.to_dict()))
            if x["k"] == "at" and self.cfg["flavour"] == "oidc":
                u = self.userinfo(t)
                want = o["ui"][t - 1] == "y"
                if (u[0] == "ok") and not want:
                    tags = (WHY[why] if why else {"C03"})
                    divs.append(Div(tags, "userinfo serves a %s access token" % (why or "stale login's")))
                elif u[0] != "ok" and want:
                    divs.append(Div({"C03"} | self.blame(l, t), "userinfo refuses a live access token: %s" % (u[1:],)))
                elif u[0] == "ok":
                    sub = u[1]["response_args"].get("sub")
                    if g["sub"] is None:
                        g["sub"] = sub
                    if sub != g["sub"]:
                        divs.append(Div({"C13", "C14"}, "userinfo subject changed"))
            # session lookups
            if not why:
                try:
                    i = mngr.get_session_info_by_token(x["value"], grant=True)
                    if i["user_id"] != g["u"] or i["client_id"] != self.cn[g["c"]] or \
                            mngr.decrypt_session_id(i["session_id"]) != mngr.decrypt_session_id(g["sid"]):
                        divs.append(Div({"C13"}, "token resolves to another session"))
                except Exception as e:
                    divs.append(Div({"C13", "C03"} | self.blame(l, t), "token does not resolve: %r" % e))
            elif why == "gone":
                try:
                    i = mngr.get_session_info_by_token(x["value"], grant=True)
                    if i["grant"].get_token(x["value"]) is not None:
                        divs.append(Div({"C13"}, "token of a removed session still resolves"))
                except Exception:
                    pass
        for gi, g in self.grant.items():
            pass
        return divs

    def blame(self, l, t):
        a = l["a"]
        if a in ("revoke_token", "revoke_grant", "revoke_client"):
            return {"C04", "C13"} if a == "revoke_client" else {"C04"}
        if a in ("remove", "remove_client", "remove_user"):
            return {"C13", "C04"}
        if a in ("redeem", "refresh", "process"):
            return {"C01"} if l.get("why") == "replay" else {"C02", "C04"} if not l.get("ok") else {"C04", "C24", "C06"}
        if a == "reload":
            return {"C21"}
        if a == "authz":
            return {"C13"}
        return set()

    def check_introspection(self, x, g, ra):
        divs = []
        sc = ra.get("scope")
        if isinstance(sc, str):
            sc = sc.split()
        if set(sc or []) != set(x["scope"]):
            divs.append(Div({"C05", "C22"}, "introspection: scope %s, must be %s" % (sc, x["scope"])))
        if ra.get("client_id") != self.cn[g["c"]]:
            divs.append(Div({"C13", "C22"}, "introspection: client %s, must be %s" % (ra.get("client_id"), self.cn[g["c"]])))
        if g["sub"] is None:
            g["sub"] = ra.get("sub")
        if not ra.get("sub") or ra.get("sub") != g["sub"]:
            divs.append(Div({"C13", "C14", "C22"}, "introspection: subject %s, must be %s" % (ra.get("sub"), g["sub"])))
        for og in self.grant.values():
            if og["sub"] and (og["sub"] == g["sub"]) != (og["u"] == g["u"]):
                divs.append(Div({"C14", "C13"}, "subject %s: users %s and %s" % (g["sub"], og["u"], g["u"])))
        if ra.get("iat") != x["iat"]:
            divs.append(Div({"C22"}, "introspection: iat %s, issued at %s" % (ra.get("iat"), x["iat"])))
        want = self.expsec(x["exp"])
        if want is not None and ra.get("exp") != want:
            divs.append(Div({"C22", "C25"}, "introspection: exp %s, usage rules say %s" % (ra.get("exp"), want)))
        if want is not None and self.tokens == "jwt":
            p = x["value"].split(".")[1]
            pl = json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))
            if pl.get("exp") != want:
                divs.append(Div({"C25"}, "expiry inside the token %s, usage rules say %s" % (pl.get("exp"), want)))
            if set(pl.get("scope") or []) != set(x["scope"]):
                divs.append(Div({"C05"}, "scope inside the token %s, must be %s" % (pl.get("scope"), x["scope"])))
        return divs
