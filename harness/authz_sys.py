"""Drives real servers along behaviours of spec/Authz.tla."""
import json, random
from html.parser import HTMLParser
from urllib.parse import urlencode, parse_qsl, urlsplit, quote
import opsys
from opsys import CLOCK, call, make_server, base_conf, add_client, ISS, is_error, create_authn_event, reload_server
from engine import Div
from cryptojwt.jws.jws import factory as jws_factory

SECRET = {"c1": "hemligt_hemligt_hemligt_hemligt_1", "c2": "hemligt_hemligt_hemligt_hemligt_2"}
STATES = {"none": None, "plain": "abc123", "special": ["a b&c=d+e%20f#g?h/i", " lead", "trail ", "\ttab\n", "0", "null", "x" + " " * 40, "a=b", "+", "%41", "\r\nSet-Cookie: a=b", "'\\", "True"], "html": "\"><script>alert('x')</script>&amp;&copy=1",
          "unicode": "åäö☃", "long": "s" * 2000}
BASES = [("https://c1.example.com/cb", "https://c1.example.com/cb2", "https://c2.example.com/cb"),
         ("https://c1.example.com/cb/a/b", "https://c1.example.com/cb", "https://c1.example.com/cbx"),
         ("com.example.app:/cb", "http://localhost:8080/cb", "https://c1.example.com/cb"),
         ("https://c1.example.com/a%62c/cb", "https://c1.example.com:8443/cb", "https://c1.example.com/cb"),
         ("http://127.0.0.1:1234/callback", "https://c1.example.com/a+b/~cb", "http://127.0.0.1:12345/callback")]


class Form(HTMLParser):
    def __init__(self):
        super().__init__()
        self.action = None
        self.fields = []
        self.forms = 0
        self.others = []

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if tag == "form":
            self.forms += 1
            self.action = d.get("action")
        elif tag == "input":
            self.fields.append((d.get("name"), d.get("value")))
        elif tag not in ("html", "head", "title", "body"):
            self.others.append(tag)


class AuthzSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.n = 0
        self.stats = {}
        CLOCK.reset()
        self.flavour = cfg["flavour"]
        self.conf = base_conf(self.flavour)
        self.server = make_server(self.conf, self.flavour)
        b = dict(zip(("b1", "b2", "other"), self.rnd.choice(BASES)))
        self.base = b
        for c, cl in cfg["client"].items():
            uris = []
            for r in cl["uris"]:
                q = {}
                for k, v in r["query"]:
                    q.setdefault(k, []).append(v)
                uris.append((b[r["base"]], q) if q or self.rnd.random() < .7 else b[r["base"]])
            e = add_client(self.server, c, SECRET[c])
            e["redirect_uris"] = uris
            e["response_types"] = [self.perm(x) for x in cl["rts"]]
            if not cl["rts"] and self.rnd.random() < .5:
                del e["response_types"]

    def perm(self, ws):
        ws = list(ws)
        self.rnd.shuffle(ws)
        return " ".join(ws)

    def params(self):
        return {"seed": self.seed, "bases": self.base}

    def worn(self):
        return self.n >= 40

    def begin(self, walk):
        self.n += 1

    def end(self):
        return []

    def do_reload(self, l):
        self.server = reload_server(self.server, self.conf, self.flavour)

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    # -- URIs
    def query(self, pairs):
        ps = [tuple(p) for p in pairs]
        self.rnd.shuffle(ps)
        return urlencode(ps)

    def uri(self, u):
        if u["base"] == "missing":
            return None
        b = self.base[u["base"]]
        sp = urlsplit(b)
        host = sp.netloc
        v = u["var"]
        if v == "sub":
            b += "/sub"
        elif v == "parent":
            b = b.rsplit("/", 1)[0] + self.rnd.choice(["/", ""])
        elif v == "slash":
            b += "/"
        elif v == "case":
            b = b[:-2] + b[-2:].upper()
        elif v == "hostcase":
            b = b.replace(host, host.upper()) if host and host.upper() != host else b.upper()
        elif v == "scheme":
            b = ("http" if sp.scheme == "https" else "https") + b[len(sp.scheme):]
        elif v == "port":
            if not host:
                b = b.replace(":/", "://x:443/")
            else:
                b = b.replace(host, host.split(":")[0] + self.rnd.choice([":443", ":80", ":8443x", ":"]), 1)
        elif v == "userinfo":
            b = b.replace("://", "://user@", 1) if "://" in b else b.replace(":/", "://user@x/", 1)
        elif v == "enc":
            b = b[:-1] + "%%%02x" % ord(b[-1])
        elif v == "dots":
            i = b.rindex("/")
            b = b[:i] + self.rnd.choice(["/x/..", "/.", "//"] if host else ["/x/..", "/."]) + b[i:]
        elif v == "space":
            b = self.rnd.choice([b + " ", " " + b, b + "%20"])
        elif v == "newline":
            b = self.rnd.choice([b + "\n", "\t" + b, b[:-1] + "\r\n" + b[-1], b + "\x00"])
        elif v == "hostsuffix":
            b = b.replace(host, host + ".evil.org", 1) if host else b.replace(":/", "://evil.org/", 1)
        elif v == "semi":
            b += ";x=1"
        elif v == "backslash":
            b = b.replace("://", "://evil.org\\@", 1) if "://" in b else b + "\\"
        if u["query"]:
            b += "?" + self.query(u["query"])
        if u["frag"] == "empty":
            b += "#"
        elif u["frag"] == "f":
            b += self.rnd.choice(["#f", "#?x=1", "#/"])
        return b

    def base_request(self, c, rt, state):
        q = {"client_id": c, "response_type": rt, "scope": self.rnd.choice(["openid", "openid profile"])}
        if state is not None:
            q["state"] = state
        if self.flavour == "oidc":
            q["nonce"] = "nonce%d" % self.rnd.randrange(10 ** 6)
        return q

    def encode(self, q):
        """as a dictionary or the way it comes over the wire"""
        return q if self.rnd.random() < .5 else urlencode(q)

    def do_uri(self, l):
        c = l["c"]
        uri = self.uri(l["u"])
        q = self.base_request(c, "code", "st")
        if uri is not None:
            q["redirect_uri"] = uri
        ep = self.server.server_get("endpoint", l["ep"])
        if l["ep"] == "pushed_authorization":
            q["client_secret"] = SECRET[c]
        try:
            r = ep.parse_request(self.encode(q), http_info={"headers": {}})
            err = is_error(r)
        except Exception as e:
            r, err = e, True
        v = l["verdict"]
        self.stats["uris"] = self.stats.get("uris", 0) + 1
        if err:
            if v == "must":
                return [Div({"C09"}, "%s refused for %s, registered %s: %s" % (uri, c, self.regs(c), str(r)[:200]))]
            if not isinstance(r, Exception) and uri and (r.get("return_uri") or r.get("redirect_uri")):
                return [Div({"C09"}, "refusal of %s would be sent to %s" % (uri, r.get("return_uri") or r.get("redirect_uri")))]
            return
        if v == "no":
            return [Div({"C09"}, "%r accepted for %s, registered %s (%s)" % (uri, c, self.regs(c), l["ep"]))]
        want = self.same(r["redirect_uri"], l["to"][0])
        if not want:
            return [Div({"C09"}, "answer would go to %s, must go to %s" % (r["redirect_uri"], l["to"]))]
        if uri is not None and r["redirect_uri"] != uri:
            return [Div({"C09"}, "asked for %s, the answer would go to %s" % (uri, r["redirect_uri"]))]

    def regs(self, c):
        return self.server.endpoint_context.cdb[c]["redirect_uris"]

    def same(self, uri, r):
        b, _, q = uri.partition("?")
        return b == self.base[r["base"]] and sorted(parse_qsl(q, keep_blank_values=True)) == sorted(tuple(p) for p in r["query"])

    # -- the answer
    def do_resp(self, l):
        c, user = l["c"], l["user"]
        state = STATES[l["state"]]
        if isinstance(state, list):
            state = self.rnd.choice(state)
        q = self.base_request(c, " ".join(l["rt"]), state)
        uri = self.base[l["to"]["base"]] + ("?" + self.query(l["to"]["query"]) if l["to"]["query"] else "")
        q["redirect_uri"] = uri
        if l["mode"]:
            q["response_mode"] = l["mode"]
        ep = self.server.server_get("endpoint", "authorization")
        ctx = self.server.endpoint_context
        v = l["verdict"]
        what = "response_type=%s response_mode=%s" % (" ".join(l["rt"]), l["mode"])
        try:
            req = ep.parse_request(self.encode(q), http_info={"headers": {}})
            err = is_error(req)
        except Exception as e:
            req, err = e, True
        if err:
            if v == "must":
                return [Div({"C10"}, "%s refused: %s" % (what, str(req)[:200]))]
            if not isinstance(req, Exception) and state and req.get("state") != state and v == "no":
                return [Div({"C10"}, "%s refused without the request's state" % what)]
            return
        ev = create_authn_event(user, authn_info="pwd", authn_time=CLOCK.now, valid_until=CLOCK.now + 3600)
        sid = ctx.session_manager.create_session(ev, req, user, client_id=req["client_id"], sub_type="public",
                                                 token_usage_rules=ctx.authz.usage_rules(req["client_id"]))
        try:
            info = ep.authz_part2(req, sid)
            out = ep.do_response(request=req, **info)
        except Exception as e:
            if v == "must":
                return [Div({"C10"}, "%s fails: %r" % (what, e))]
            return
        loc = out["response"]
        sent = self.parse(out, ep, uri)
        if sent is None:
            return [Div({"C09", "C10"}, "%s: answer does not go to %s: %s" % (what, uri, loc[:200]))]
        place, f = sent
        if len(f) != len(dict(f)):
            return [Div({"C10"}, "%s: repeated parameters in the answer: %s" % (what, f))]
        f = dict(f)
        got = {n for n, p in (("code", "code"), ("token", "access_token"), ("id_token", "id_token")) if f.get(p)}
        if v in ("no", "nomode"):
            if got or "error" not in f:
                return [Div({"C10"}, "%s: must be refused (%s) but the answer has %s" % (what, v, sorted(f)))]
            if state and f.get("state") != state:
                return [Div({"C10"}, "%s: error without the request's state: %s" % (what, f))]
            return
        if "error" in f:
            if v == "must":
                return [Div({"C10"}, "%s: answered with %s" % (what, f))]
            return
        if got != set(l["has"]):
            return [Div({"C10"}, "%s: answer has %s, must have %s" % (what, sorted(got), sorted(l["has"])))]
        if v == "must" and place != l["place"]:
            return [Div({"C10"}, "%s: answer in the %s, must be in the %s" % (what, place, l["place"]))]
        if place == "query" and got & {"token", "id_token"}:
            return [Div({"C10"}, "%s: tokens exposed in the query" % what)]
        if f.get("state") != state:
            return [Div({"C10"}, "%s: state %r, must be %r" % (what, f.get("state"), state))]
        if f.get("iss") != ISS or f.get("client_id") != c:
            return [Div({"C10"}, "%s: issuer %r client %r" % (what, f.get("iss"), f.get("client_id")))]
        return self.belongs(f, c, user, sid, what, q)

    def belongs(self, f, c, user, sid, what, q):
        m = self.server.endpoint_context.session_manager
        want = m.decrypt_session_id(sid)
        if list(want[:2]) != [user, c]:
            return [Div({"C10", "C13"}, "session of %s for %s at %s" % (want[:2], user, c))]
        for p in ("code", "access_token"):
            if p in f:
                i = m.get_session_info_by_token(f[p], grant=True)
                if m.decrypt_session_id(i["session_id"]) != want or i["user_id"] != user or i["client_id"] != c:
                    return [Div({"C10", "C13"}, "%s: %s belongs to another session" % (what, p))]
        if "id_token" in f:
            pl = jws_factory(f["id_token"]).jwt.payload()
            if c not in pl["aud"] or pl["sub"] != m.get_grant(sid).sub or pl["iss"] != ISS:
                return [Div({"C10", "C16"}, "%s: ID token for %s about %s" % (what, pl["aud"], pl["sub"]))]
        if "access_token" in f and f.get("token_type", "").lower() != "bearer":
            return [Div({"C10"}, "%s: token type %s" % (what, f.get("token_type")))]

    def parse(self, out, ep, uri):
        """-> (placement, [(name, value)]) of what the user agent delivers to the client"""
        placement = out.get("response_placement", ep.response_placement)
        loc = out["response"]
        if placement == "body":
            p = Form()
            p.feed(loc)
            if p.forms != 1 or p.action != uri or p.others:
                return None
            return "form_post", p.fields
        if not loc.startswith(uri):
            return None
        rest = loc[len(uri):]
        if rest[:1] == "#":
            return "fragment", parse_qsl(rest[1:], keep_blank_values=True)
        if rest[:1] == ("&" if "?" in uri else "?"):
            if "#" in rest:
                return None
            return "query", parse_qsl(rest[1:], keep_blank_values=True)
        return None
