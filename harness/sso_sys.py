"""Drives real servers along behaviours of spec/Sso.tla."""
import json, random, re, html
from urllib.parse import urlencode, parse_qsl, parse_qs, urlsplit
import opsys
from opsys import CLOCK, call, make_server, base_conf, add_client, ISS, is_error, reload_server, JWT
from engine import Div
from oidcop.user_authn.user import UserAuthnMethod
from cryptojwt.jws.jws import factory
from cryptojwt.key_jar import build_keyjar

TICK = 1000
CLIENTS = ["c1", "c2", "c3"]
SECRET = {c: "hemligt_hemligt_hemligt_hemligt_%s" % c for c in CLIENTS}
PAGE = "<html>log in, please</html>"
EVENT = "http://schemas.openid.net/event/backchannel-logout"
_alien = None


class UA(UserAuthnMethod):
    def __call__(self, **kwargs):
        return PAGE


def reg_uri(c):
    return "https://%s.example.com/bye" % c


class SsoSystem:
    def __init__(self, cfg, seed=0, params=None):
        global _alien
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        j = lambda: self.rnd.choice([1, TICK // 2, TICK - 2])
        valid = cfg["valid"] * TICK - j()
        gexp = cfg["gexp"] * TICK - j() if cfg["gexp"] else 0
        rules = {"authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1,
                                        "expires_in": 10 ** 6},
                 "access_token": {"expires_in": 10 ** 6},
                 "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"], "expires_in": 10 ** 6}}
        self.alg = self.rnd.choice(["ES256", "RS256"])
        self.conf = base_conf("oidc", usage_rules=rules, grant_expires_in=gexp or 10 ** 7, code_lifetime=10 ** 6, token_lifetime=10 ** 6,
                              refresh_lifetime=10 ** 6, id_token_kwargs={"lifetime": 10 ** 6},
                              check_session=self.rnd.random() < .3,
                              authentication={"ua": {"acr": "pwd", "class": UA, "kwargs": {"expires_in": valid}}})
        self.conf["endpoint"]["session"]["kwargs"]["signing_alg"] = self.alg
        self.server = make_server(self.conf, "oidc")
        self.setup_clients()
        if _alien is None:
            _alien = build_keyjar(opsys.KEYDEFS2)

    def setup_clients(self):
        for c in CLIENTS:
            k = self.cfg["kind"][c]
            kw = {}
            if k in ("bc", "bcfc", "hs"):
                kw["backchannel_logout_uri"] = "https://%s.example.com/bc" % c
            if k in ("fc", "bcfc", "fcs"):
                kw["frontchannel_logout_uri"] = "https://%s.example.com/fc%s" % (c, "?x=1&y=z" if self.rnd.random() < .3 else "")
            if k == "fcs":
                kw["frontchannel_logout_session_required"] = True
            if k == "hs":
                kw["id_token_signed_response_alg"] = "HS256"
            elif self.rnd.random() < .3:
                kw["id_token_signed_response_alg"] = "ES256"
            add_client(self.server, c, SECRET[c], post_logout_redirect_uris=[(reg_uri(c), {})], **kw)

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 25

    def begin(self, walk):
        self.n += 1
        self.s = []          # sessions: dict(u, c, cookie, sid, q, at, code, idt)
        self.live = []
        self.m = []          # the model's view
        # sessions of earlier walks with this server are forgotten
        sman = self.server.endpoint_context.session_manager
        sman.db = type(sman.db)()
        CLOCK.advance(TICK)
        self.httpc().posts.clear()

    def httpc(self):
        return self.server.endpoint_context.httpc

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    def ep(self, n="authorization"):
        return self.server.server_get("endpoint", n)

    # ---------------------------------------------------------------- requests
    def request(self, c, p, m, rt):
        n = self.rnd.randrange(10 ** 9)
        q = {"client_id": c, "redirect_uri": "https://%s.example.com/cb" % c, "response_type": rt, "scope": "openid",
             "state": "st%d" % n, "nonce": "n%d" % n}
        if p:
            q["prompt"] = p
        if m != 9:
            q["max_age"] = str(m * TICK + (self.rnd.choice([0, 1, TICK - 1]) if m else 0))
        return q

    def send(self, q, cookies):
        ep = self.ep()
        info = {"headers": {}}
        if cookies is not None:
            info["cookie"] = cookies
        req = ep.parse_request(dict(q) if self.rnd.random() < .5 else urlencode(q), http_info=info)
        if is_error(req):
            return req, None
        return req, ep.process_request(req, http_info=info)

    def outcome(self, q, req, r):
        if r is None:
            return "refused %s" % req
        if "http_response" in r:
            return "page" if r["http_response"] == PAGE else "odd page %r" % r["http_response"]
        if "error" in r or is_error(r):
            e = r.get("error") or r["response_args"].get("error")
            if e == "login_required":
                out = self.ep().do_response(request=req, **r)
                loc = out.get("response", "")
                if not (isinstance(loc, str) and loc.startswith(q["redirect_uri"]) and "error=login_required" in loc
                        and q["state"] in loc):
                    return "login_required, but not told the client: %r" % loc
            return e
        return "answer"

    def take(self, q, req, r, u, c):
        """remember an authorization that was given"""
        sid = r["session_id"]
        a = dict(r["response_args"])
        ck = [x for x in r["cookie"] if x["name"] == "oidc_op"]
        s = dict(u=u, c=c, sid=sid, q=q, code=a.get("code"), at=a.get("access_token"), idt=a.get("id_token"), cookie=ck[0])
        return s

    def redeem(self, s):
        r = call(self.server, "token", {"grant_type": "authorization_code", "code": s["code"], "redirect_uri": s["q"]["redirect_uri"],
                                        "client_id": s["c"], "client_secret": SECRET[s["c"]]})
        s["code"] = None
        if r[0] == "ok":
            s["at"] = r[1]["response_args"]["access_token"]
            s["idt"] = s["idt"] or r[1]["response_args"].get("id_token")
        return r

    def do_login(self, l):
        u, c = l["u"], l["c"]
        rt = self.rnd.choice(["code id_token", "code"]) if l["idt"] else self.rnd.choice(["code token", "code"])
        q = self.request(c, "", 9, rt)
        req, r = self.send(q, None if self.rnd.random() < .5 else [])
        o = self.outcome(q, req, r)
        if o != "page":
            return [Div({"C19"}, "request without cookie: %s" % o)]
        ep = self.ep()
        method = self.server.endpoint_context.authn_broker.db["ua"]["method"]
        sid = ep.create_session(req, u, "pwd", 0, method)
        r = ep.authz_part2(req, sid)
        o = self.outcome(q, req, r)
        if o != "answer":
            return [Div({"C19", "C17"}, "after the login of %s at %s: %s" % (u, c, o))]
        s = self.take(q, req, r, u, c)
        s["sid"], s["login"] = sid, CLOCK.now
        if l["idt"] and rt == "code":
            t = self.redeem(s)
            if t[0] != "ok":
                return [Div({"C17", "C19"}, "a fresh code of %s at %s cannot be redeemed: %s" % (u, c, t[1:]))]
        divs = self.idtoken(s)
        if divs:
            return divs
        self.s.append(s)
        self.m.append({"u": u, "c": c, "st": "ok", "at": CLOCK.now})

    # ---------------------------------------------------------------- single sign-on
    def cookies_for(self, i, c):
        if i == 0:
            return self.rnd.choice([None, []])
        ck = [self.s[i - 1]["cookie"]]
        # further cookies of this server the browser may have, none of which speaks for anyone at this client
        if self.rnd.random() < .3:
            more = [s["cookie"] for s in self.s if s["c"] not in (c, self.s[i - 1]["c"])]
            if more and self.s[i - 1]["c"] == c:
                ck.insert(0, self.rnd.choice(more))
        if self.rnd.random() < .3:
            h = self.server.endpoint_context.cookie_handler
            ck.insert(0, h.make_cookie_content(name="oidc_op_sman", value=json.dumps({"state": "x"})))
        if self.rnd.random() < .3:
            ck.append({"name": "theme", "value": "dark|a|b"})
        return [{"name": x["name"], "value": x["value"]} for x in ck]

    def do_sso(self, l):
        i, c = l["i"], l["c"]
        if l["same"]:
            q = self.s[i - 1]["q"]
        else:
            rts = ["code token", "code"] + ["code id_token"] * (self.cfg["kind"][c] != "hs")
            q = self.request(c, l["p"], l["m"], self.rnd.choice(rts))
        req, r = self.send(q, self.cookies_for(i, c))
        o = self.outcome(q, req, r)
        if o != l["res"]:
            return [Div({"C19"}, "cookie of %s, prompt=%s, max_age=%s, now %s (%s): %s instead of %s" % (
                i and {k: self.s[i - 1][k] for k in "uc"}, l["p"], q.get("max_age"), CLOCK.now, l["why"], o, l["res"]))]
        if o == "answer":
            s = self.take(q, req, r, l["u"], c)
            if s["c"] != dict(r["response_args"]).get("client_id", s["c"]):
                return [Div({"C19"}, "answered to another client")]
            s["login"] = self.s[i - 1]["login"]
            divs = self.idtoken(s)
            if divs:
                return divs
            if l["same"]:
                old = self.s[i - 1]
                s["idt"] = s["idt"] or old["idt"]
                self.s[i - 1] = s
            else:
                self.s.append(s)
            # for whom?
            if s["at"]:
                return self.who(s)

    def idtoken(self, s):
        """the ID token speaks of the login, however long ago and for whichever request that was"""
        if s["idt"]:
            p = factory(s["idt"]).jwt.payload()
            if p.get("auth_time") != s["login"]:
                return [Div({"C16", "C19"}, "auth_time is %s, the login was at %s" % (p.get("auth_time"), s["login"]))]
            if p.get("sub") != self.sub(s["u"]) or p.get("nonce") != s["q"].get("nonce"):
                return [Div({"C16", "C19"}, "ID token for %s with nonce %s: %s" % (s["u"], s["q"].get("nonce"), p))]

    def who(self, s):
        r = call(self.server, "userinfo", {}, http_info={"headers": {"authorization": "Bearer " + s["at"]}})
        if r[0] == "ok":
            sub = r[1]["response_args"]["sub"]
            exp = self.sub(s["u"])
            if sub != exp:
                return [Div({"C19"}, "answered for subject %s, who logged in was %s (%s)" % (sub, s["u"], exp))]

    def sub(self, u):
        sman = self.server.endpoint_context.session_manager
        return sman.sub_func["public"](u, salt=sman.get_salt() if hasattr(sman, "get_salt") else sman.salt)

    def bad(self, how, i):
        s = self.s[i - 1]
        v = s["cookie"]["value"]
        h = self.server.endpoint_context.cookie_handler
        r = self.rnd
        if how == "junk":
            v = r.choice(["x", "a|b|c", "a|b|c|d", "||", "|||", "%00", "{}", s["sid"], "1600000000|x::y|AAAA"])
        elif how == "alien":
            other = opsys.CookieHandler(sign_key="xhsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch", name=h.name)
            v = other.make_cookie_content("oidc_op", json.dumps({"sid": s["sid"], "state": "x"}))["value"]
        elif how == "altered":
            p = v.split("|")
            k = r.randrange(3)
            x = p[k]
            n = r.randrange(max(1, len(x) - 4))
            p[k] = x[:n] + ("1" if x[n] != "1" else "2") + x[n + 1:]
            v = "|".join(p)
        elif how == "othername":
            return {"name": "oidc_op_sman", "value": v}
        elif how == "stripped":
            p = v.split("|")
            v = r.choice(["|".join(p[:2]), "|".join(p[:2] + [""]), p[1], "|".join(p[1:])])
        elif how == "empty":
            v = ""
        elif how == "foreign":
            val = r.choice([{"state": "x"}, {"sid": "nonsense", "state": "x"}, {"sid": "AAAA" * 20}, {"sid": ""}])
            v = h.make_cookie_content("oidc_op", json.dumps(val))["value"]
        return {"name": "oidc_op", "value": v}

    def do_badcookie(self, l):
        q = self.request(l["c"], l["p"], 9, "code")
        ck = self.bad(l["how"], l["i"])
        req, r = self.send(q, [ck])
        o = self.outcome(q, req, r)
        if o != l["res"]:
            return [Div({"C19"} | ({"C18"} if l["how"] in ("alien", "altered", "stripped") else set()),
                        "%s cookie %s, prompt=%s: %s instead of %s" % (l["how"], ck, l["p"], o, l["res"]))]

    def do_tick(self, l):
        CLOCK.advance(TICK)

    def do_reload(self, l):
        http = self.httpc()
        self.server = reload_server(self.server, self.conf, "oidc")
        self.server.endpoint_context.httpc = http

    def do_revoke(self, l):
        sman = self.server.endpoint_context.session_manager
        sman.revoke_grant(self.s[l["i"] - 1]["sid"])
        self.s[l["i"] - 1]["dead"] = True

    # ---------------------------------------------------------------- logout
    def logout_request(self, l):
        s = self.s[l["i"] - 1]
        flaw = l.get("flaw", "")
        r = self.rnd
        q = {}
        if l["h"]:
            q["id_token_hint"] = self.s[l["h"] - 1]["idt"]
        other = r.choice([c for c in CLIENTS if c != s["c"]])
        if l["uri"]:
            q["post_logout_redirect_uri"] = reg_uri(s["c"])
            if r.random() < .5:
                q["state"] = "bye-%d" % r.randrange(1000)
            if r.random() < .2:
                q["client_id"] = s["c"]
        if flaw == "unreg":
            q["post_logout_redirect_uri"] = r.choice([reg_uri(s["c"]) + x for x in ("/", "x", "#", "?a=b", "#a", "%20", "/../x")]
                                                     + ["https://evil.org/", "http://%s.example.com/bye" % s["c"],
                                                        "https://%s.example.com/cb" % s["c"], "https://c1.example.com.evil.org/bye"])
        elif flaw == "others":
            q["post_logout_redirect_uri"] = reg_uri(other)
        elif flaw == "others+cid":
            q["post_logout_redirect_uri"] = reg_uri(other)
            q["client_id"] = other
        elif flaw == "forged":
            jws = factory(q["id_token_hint"])
            p = jws.jwt.payload()
            how = r.choice(["key", "none", "sig", "cut"])
            if how == "key":
                p = {k: v for k, v in p.items() if k not in ("aud", "iss", "iat", "exp")}
                q["id_token_hint"] = JWT(_alien, iss=ISS, lifetime=1000, sign_alg="ES256").pack(p, recv=s["c"])
            elif how == "none":
                p = {k: v for k, v in p.items() if k not in ("aud", "iss", "iat", "exp")}
                q["id_token_hint"] = JWT(_alien, iss=ISS, lifetime=1000, sign_alg="none").pack(p, recv=s["c"])
            elif how == "cut":
                q["id_token_hint"] = ".".join(q["id_token_hint"].split(".")[:2]) + "."
            else:
                a, b, c = q["id_token_hint"].split(".")
                q["id_token_hint"] = ".".join([a, b, c[:5] + ("A" if c[5] != "A" else "B") + c[6:]])
        ck = {"name": "oidc_op", "value": s["cookie"]["value"]}
        if flaw == "nocookie":
            cookies = r.choice([None, [], [{"name": "oidc_op_sman", "value": ck["value"]}]])
        elif flaw in ("junk", "alien"):
            cookies = [self.bad(flaw, l["i"])]
        elif flaw == "plain":
            cookies = [self.bad(r.choice(["stripped", "altered", "foreign", "empty"]), l["i"])]
        else:
            cookies = [ck]
        info = {"headers": {}}
        if cookies is not None:
            info["cookie"] = cookies
        return q, info

    def logout_stage1(self, l):
        q, info = self.logout_request(l)
        ep = self.ep("session")
        try:
            req = ep.parse_request(dict(q), http_info=info)
            if is_error(req) and q:
                return q, None, str(req)
            res = ep.process_request(req, http_info=info)
        except Exception as e:
            return q, None, repr(e)
        if is_error(res) or "redirect_location" not in res:
            return q, None, str(res)
        return q, res["redirect_location"], None

    def do_logoutreq(self, l):
        if l["flaw"] == "dead":
            self.logout_stage1(l)
            return
        q, loc, err = self.logout_stage1(l)
        s = self.s[l["i"] - 1]
        if l["ok"]:
            return self.check_stage1(l, q, loc, err)[1]
        if loc is not None:
            return [Div({"C17"}, "logout request with the cookie of %s at %s accepted (flaw: %s, hint of %s): %s -> %s" % (
                s["u"], s["c"], l["flaw"], l["h"] and {k: self.s[l["h"] - 1][k] for k in "uc"},
                {k: v for k, v in q.items() if k != "id_token_hint"}, loc[:60]))]
        return self.nothing_sent()

    def nothing_sent(self):
        if self.httpc().posts:
            return [Div({"C17"}, "clients were notified of a logout that did not happen: %s" % [p[0] for p in self.httpc().posts])]

    def check_stage1(self, l, q, loc, err):
        s = self.s[l["i"] - 1]
        if loc is None:
            return None, [Div({"C17"}, "logout request of %s at %s refused: %s (%s)" % (s["u"], s["c"], err, sorted(q)))]
        if not loc.startswith(ISS + "/verify_logout?"):
            return None, [Div({"C17"}, "sent to %s" % loc[:80])]
        info = self.ep("session").unpack_signed_jwt(dict(parse_qsl(urlsplit(loc).query))["sjwt"])
        if info["sid"] != s["sid"] and self.grant_of(info["sid"]) != self.grant_of(s["sid"]):
            return None, [Div({"C17"}, "the logout is about another session than the cookie")]
        want = q.get("post_logout_redirect_uri", ISS + "/post_logout")
        if "post_logout_redirect_uri" in q and "state" in q:
            want += "?" + urlencode({"state": q["state"]})
        if info["redirect_uri"] != want:
            return None, [Div({"C17"}, "the user is sent to %s after the logout, asked for was %s" % (info["redirect_uri"], want))]
        d = self.nothing_sent()
        return (None, d) if d else (info, None)

    def grant_of(self, sid):
        return self.server.endpoint_context.session_manager.decrypt_session_id(sid)

    def do_logout(self, l):
        q, loc, err = self.logout_stage1(l)
        info, d = self.check_stage1(l, q, loc, err)
        if d:
            return d
        http = self.httpc()
        http.posts.clear()
        http.post_status.clear()
        kind = l["fail"]["kind"]
        for c in l["fail"]["who"]:
            uri = self.server.endpoint_context.cdb[c].get("backchannel_logout_uri")
            if uri:
                http.post_status[uri] = {"error": self.rnd.choice([400, 500, 404]), "odd": self.rnd.choice([501, 504, 302]),
                                         "down": self.rnd.choice([ConnectionError("down"), OSError("timed out"), ValueError("x")])}[kind]
        ep = self.ep("session")
        what = "logout of %s at %s (%s)" % (l["u"], l["c"], "everywhere" if l["all"] else "there")
        try:
            frames = list(ep.do_verified_logout(alla=l["all"], **info))
        except Exception as e:
            return [Div({"C17"}, "%s failed: %r (failing: %s, kinds %s)" % (what, e, l["fail"], self.cfg["kind"]))]
        posts = list(http.posts)
        http.posts.clear()
        http.post_status.clear()
        heard = {}
        for url, data in posts:
            c = url.split("//")[1].split(".")[0]
            ci = self.server.endpoint_context.cdb[c]
            if url != ci.get("backchannel_logout_uri"):
                return [Div({"C17"}, "%s: posted to %s" % (what, url))]
            heard[c] = heard.get(c, 0) + 1
            d = self.check_token(c, l["u"], data, what)
            if d:
                return d
        for f in frames:
            m = re.match(r'<iframe src="([^"]*)">', f)
            if not m:
                return [Div({"C17"}, "%s: frame %r" % (what, f))]
            src = m.group(1)
            c = src.split("//")[1].split(".")[0]
            ci = self.server.endpoint_context.cdb[c]
            reg = ci.get("frontchannel_logout_uri", "none")
            a, b = urlsplit(src), urlsplit(reg)
            if (a.scheme, a.netloc, a.path) != (b.scheme, b.netloc, b.path):
                return [Div({"C17"}, "%s: frame for %s, registered %s" % (what, src, reg))]
            qs = parse_qs(a.query)
            for k, v in parse_qs(b.query).items():
                if qs.pop(k, None) != v:
                    return [Div({"C17"}, "%s: frame for %s, registered %s" % (what, src, reg))]
            if ci.get("frontchannel_logout_session_required"):
                if qs.get("iss") != [ISS] or not self.sid_ok(qs.get("sid", [""])[0], l["u"], c):
                    return [Div({"C17"}, "%s: frame %s does not tell issuer and session of %s" % (what, src, l["u"]))]
            heard[c] = heard.get(c, 0) + 1
        for c in l["must"]:
            if heard.get(c) != 1:
                return [Div({"C17"}, "%s: %s (%s) was notified %d times (failing: %s)" % (what, c, self.cfg["kind"][c], heard.get(c, 0), l["fail"]))]
        for c in heard:
            if c not in l["may"] or heard[c] > 1:
                return [Div({"C17"}, "%s: %s was notified %d times" % (what, c, heard[c]))]
        # the browser's cookies
        ks = ep.kill_cookies()
        if sorted(k["name"] for k in ks) != ["oidc_op", "oidc_op_sman"] or any(k["value"] or "1970" not in k.get("expires", "") for k in ks):
            return [Div({"C17"}, "cookies are not removed: %s" % ks)]
        for k in l["scope"]:
            self.s[k - 1]["dead"] = True
        return self.probe(l["scope"])

    def probe(self, dead):
        """are the tokens of the sessions that ended dead, and those of the others as they were?"""
        for k, s in enumerate(self.s):
            if s["at"] and (k + 1) in dead:
                if self.active(s):
                    return [Div({"C17", "C24"}, "after the logout the access token of %s at %s is still active" % (s["u"], s["c"]))]

    def active(self, s):
        r = call(self.server, "introspection", {"token": s["at"], "client_id": s["c"], "client_secret": SECRET[s["c"]]})
        return r[0] == "ok" and bool(r[1]["response_args"].get("active"))

    def sid_ok(self, sid, u, c):
        try:
            x = self.grant_of(sid)
        except Exception:
            return False
        return x[0] == u and x[1] == c

    def check_token(self, c, u, data, what):
        m = re.match(r"logout_token=(.*)$", data)
        if not m:
            return [Div({"C17"}, "%s: %s was sent %r" % (what, c, data[:100]))]
        jws = factory(m.group(1))
        p = jws.jwt.payload()
        ci = self.server.endpoint_context.cdb[c]
        kj = opsys.KeyJar()
        alg = jws.jwt.headers["alg"]
        want = ci.get("id_token_signed_response_alg", "RS256")
        if alg != want:
            return [Div({"C17"}, "%s: the logout token for %s is signed with %s, the client expects %s" % (what, c, alg, want))]
        if alg == "HS256":
            from cryptojwt.jwk.hmac import SYMKey
            keys = [SYMKey(key=SECRET[c], use="sig")]
        else:
            kj.import_jwks(self.server.endpoint_context.keyjar.export_jwks(False, ""), "")
            keys = kj.get_signing_key(alg2type(alg), "")
        try:
            jws.verify_compact(m.group(1), keys)
        except Exception as e:
            return [Div({"C17"}, "%s: the logout token for %s can not be verified by the client: %r" % (what, c, e))]
        aud = p.get("aud")
        if p.get("iss") != ISS or (aud if isinstance(aud, list) else [aud]) != [c] or EVENT not in p.get("events", {}) \
                or not p.get("jti") or not p.get("iat") or "nonce" in p or not self.sid_ok(p.get("sid", ""), u, c):
            return [Div({"C17"}, "%s: the logout token for %s says %s" % (what, c, p))]

    def end(self):
        """what has become of the tokens of every session"""
        for s in self.s:
            what = "of %s at %s, %s" % (s["u"], s["c"], "which was ended" if s.get("dead") else "which nothing ended")
            if s.get("dead"):
                if s["at"] and self.active(s):
                    return [Div({"C17", "C24"}, "the access token of a session %s, is active" % what)]
                if s["code"] and self.redeem(s)[0] == "ok":
                    return [Div({"C17", "C24"}, "the code of a session %s, was redeemed" % what)]
            elif not self.cfg["gexp"]:
                if s["at"] and not self.active(s):
                    return [Div({"C17", "C24"}, "the access token of a session %s, is not active" % what)]
                if s["code"] and self.cfg["kind"][s["c"]] != "hs":
                    r = self.redeem(s)
                    if r[0] != "ok":
                        return [Div({"C17", "C24"}, "the code of a session %s, can not be redeemed: %s" % (what, r[1:]))]
        return []


def alg2type(alg):
    return "RSA" if alg.startswith(("RS", "PS")) else "EC"
