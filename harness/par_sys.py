"""Drives real servers along behaviours of spec/Par.tla."""
import json, random, uuid
from urllib.parse import urlencode, parse_qsl, urlsplit
import opsys
from opsys import CLOCK, call, make_server, base_conf, add_client, ISS, is_error, reload_server, create_authn_event
from engine import Div

TICK = 100
BESIDE = ["min", "same", "override", "uri", "extra"]
SECRET = {"c1": "hemligt_hemligt_hemligt_hemligt_1", "c2": "hemligt_hemligt_hemligt_hemligt_2"}
URIS = {c: ["https://%s.example.com/cb" % c, "https://%s.example.com/other" % c] for c in SECRET}


class ParSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        self.flavour = cfg["flavour"]
        self.ttl = cfg["life"] * TICK - self.rnd.choice([1, TICK // 2, TICK - 2])
        self.conf = base_conf(self.flavour, par_kwargs={"ttl": self.ttl})
        self.server = make_server(self.conf, self.flavour)
        for c in SECRET:
            add_client(self.server, c, SECRET[c], redirect_uris=[(u, {}) for u in URIS[c]], response_types=["code", "code id_token"])

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return self.n >= 60

    def begin(self, walk):
        self.n += 1
        self.refs = []       # (urn, request, pushed at, announced, client)

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    def content(self, c, k):
        # the very same request may be pushed more than once
        n = self.rnd.randrange(10 ** 9) if self.rnd.random() < .4 else self.n
        q = {"client_id": c, "redirect_uri": URIS[c][k in ("k2", "k4")], "response_type": "code", "state": "st-%s-%d" % (k, n),
             "scope": "openid" if k in ("k1", "k2") else "openid profile"}
        if self.flavour == "oidc":
            q["nonce"] = "nonce-%d" % n
            if k == "k2":
                q["response_type"] = "code id_token"
            if k == "k3":
                q["claims"] = json.dumps({"userinfo": {"email": None}})
                q["max_age"] = "1000"
            if k == "k4":
                q["scope"] = "openid offline_access"
                q["prompt"] = "consent"
        return q

    def encode(self, q):
        return q if self.rnd.random() < .5 else urlencode(q)

    def do_tick(self, l):
        CLOCK.advance(TICK)

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, self.flavour, plain=True)

    def stored(self):
        return len(self.server.endpoint_context.par_db)

    def do_push(self, l):
        c = l["c"]
        q = self.content(c, l["k"])
        other = "c2" if c == "c1" else "c1"
        if l["flaw"] == "uri":
            q["redirect_uri"] += self.rnd.choice(["x", "/x", "?x=1"])
        elif l["flaw"] == "otheruri":
            q["redirect_uri"] = URIS[other][0]
        elif l["flaw"] == "rt":
            q["response_type"] = self.rnd.choice(["token", "id_token token", "code id_token token"])
            q["nonce"] = "n"
        elif l["flaw"] == "fragment":
            q["redirect_uri"] += "#x"
        sent = dict(q)
        info = {"headers": {}}
        a = l["auth"]
        if a == "own":
            if self.rnd.random() < .5:
                sent["client_secret"] = SECRET[c]
            else:
                import base64
                info = {"headers": {"authorization": "Basic " + base64.b64encode(("%s:%s" % (c, SECRET[c])).encode()).decode()}}
        elif a == "other":
            sent["client_secret"] = SECRET[other]
        elif a == "wrong":
            sent["client_secret"] = SECRET[c][:-1]
        n = self.stored()
        r = call(self.server, "pushed_authorization", self.encode(sent), http_info=info)
        what = "push by %s (authentication: %s, flaw: %s)" % (c, a, l["flaw"])
        if r[0] == "ok":
            if not l["ok"]:
                return [Div({"C12"}, "%s was stored" % what)]
            a = r[1]["http_response"]
            if any(a["request_uri"] == x[0] for x in self.refs):
                return [Div({"C12"}, "the same reference was given out twice")]
            self.refs.append((a["request_uri"], q, CLOCK.now, a["expires_in"], c))
        elif l["ok"]:
            return [Div({"C12"}, "%s refused: %s" % (what, r[1:]))]
        elif self.stored() != n:
            return [Div({"C12"}, "%s was refused but stored" % what)]

    def beside(self, c, q, how):
        """parameters sent together with the reference"""
        q = dict(q)
        req = {"client_id": c}
        keep = ("response_type", "scope", "redirect_uri", "nonce")   # the message classes demand these
        if self.flavour == "oauth2":
            keep = ("response_type",)
        for k in keep:
            if k in q:
                req[k] = q[k]
        if q.get("prompt"):
            req["prompt"] = q["prompt"]
        if how == "same":
            req.update(q)
            req["client_id"] = c
        elif how == "override":
            req.update(state="evil-state", nonce="evil-nonce", scope="openid email")
            req.pop("prompt", None)
            if self.rnd.random() < .5:
                req["response_type"] = "code"
        elif how == "uri":
            req["redirect_uri"] = self.rnd.choice([u for u in URIS[c] + ["https://evil.org/cb"] if u != q["redirect_uri"]])
        elif how == "extra":
            req.update(login_hint="evil", acr_values="evil", display="page", response_mode="form_post", ui_locales="sv")
        return req

    def parse(self, req):
        ep = self.server.server_get("endpoint", "authorization")
        try:
            r = ep.parse_request(self.encode(req), http_info={"headers": {}})
        except Exception as e:
            return None, repr(e)
        return (None, str(r)) if is_error(r) else (r, "")

    def do_use(self, l):
        urn, q, at, life, owner = self.refs[l["i"] - 1]
        req = self.beside(l["c"], q, l["b"])
        req["request_uri"] = urn
        r, err = self.parse(req)
        ok = l["ok"]
        if l["why"] in ("ok", "expired") and CLOCK.now != at + life:
            ok = CLOCK.now < at + life       # what was announced counts
        what = "use by %s of the request pushed by %s %d s before (lifetime %d), %s" % (l["c"], owner, CLOCK.now - at, life, l["why"])
        if r is None:
            return [Div({"C12"}, "%s refused: %s" % (what, err[:200]))] if ok else None
        if not ok:
            return [Div({"C12"}, "%s was accepted" % what)]
        got = r.to_dict()
        for k, v in q.items():
            g = got.get(k)
            if k == "claims":
                g = json.loads(g if isinstance(g, str) else json.dumps(g))
                v = json.loads(v)
            elif isinstance(g, list):
                g = " ".join(g)
            elif isinstance(g, int):
                g = str(g)
            if g != v:
                return [Div({"C12"}, "pushed %s=%r, processed %r (sent beside the reference: %r)" % (k, v, g, req.get(k)))]
        more = {k: v for k, v in got.items() if k not in q and k in req and k != "request_uri"}
        if more:
            return [Div({"C12"}, "parameters that were not pushed are used: %s" % more)]
        # what the client gets
        ctx = self.server.endpoint_context
        user = self.rnd.choice(["diana", "bob"])
        ev = create_authn_event(user, authn_info="pwd", authn_time=CLOCK.now, valid_until=CLOCK.now + 3600)
        sid = ctx.session_manager.create_session(ev, r, user, client_id=r["client_id"], sub_type="public",
                                                 token_usage_rules=ctx.authz.usage_rules(r["client_id"]))
        ep = self.server.server_get("endpoint", "authorization")
        info = ep.authz_part2(r, sid)
        loc = ep.do_response(request=r, **info)["response"]
        if not loc.startswith(q["redirect_uri"] + ("#" if "id_token" in q["response_type"] else "?")):
            return [Div({"C12", "C09"}, "answer goes to %s, pushed was %s" % (loc[:80], q["redirect_uri"]))]
        a = dict(parse_qsl(loc[len(q["redirect_uri"]) + 1:]))
        if a.get("state") != q["state"] or not a.get("code") or a.get("client_id") != l["c"]:
            return [Div({"C12", "C10"}, "answer %s to the pushed request %s" % (a, q))]
        t = call(self.server, "token", {"grant_type": "authorization_code", "code": a["code"], "redirect_uri": q["redirect_uri"],
                                        "client_id": l["c"], "client_secret": SECRET[l["c"]]})
        if t[0] != "ok":
            return [Div({"C12"}, "the code for a pushed request cannot be redeemed: %s" % (t[1:],))]
        sc = t[1]["response_args"].get("scope")
        if sc and sorted(sc if isinstance(sc, list) else sc.split()) != sorted(q["scope"].split()):
            return [Div({"C12", "C05"}, "scope %s granted, %s was pushed" % (sc, q["scope"]))]

    def do_fake(self, l):
        h = l["how"]
        if h == "random" or not self.refs:
            urn = "urn:uuid:%s" % uuid.UUID(int=self.rnd.getrandbits(128), version=4)
        else:
            urn = self.rnd.choice(self.refs)[0]
            if h == "near":
                urn = urn[:-1] + ("0" if urn[-1] != "0" else "1")
            elif h == "case":
                urn = urn.upper() if self.rnd.random() < .5 else "urn:uuid:" + urn[9:].upper()
                if urn in [x[0] for x in self.refs]:
                    return
            else:
                urn += self.rnd.choice(["x", " ", "#", "?a=b", "/"])
        req = self.beside(l["c"], self.content(l["c"], "k1"), "min")
        req["request_uri"] = urn
        r, err = self.parse(req)
        if r is not None:
            return [Div({"C12"}, "%s was accepted as a reference" % urn)]
