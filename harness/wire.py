"""Judges an endpoint's answer as an HTTP message against what the endpoint decided (C29)."""
import json
from urllib.parse import parse_qsl
from html.parser import HTMLParser
from oidcmsg.message import Message
from cryptojwt.jws.jws import factory

SECRETS = ("code", "access_token", "refresh_token", "id_token", "client_secret", "registration_access_token", "request_uri")


class Form(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.fields, self.forms, self.action, self.others = [], 0, None, 0

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "form":
            self.forms += 1
            self.action = a.get("action")
        elif tag == "input":
            if a.get("type") == "hidden":
                self.fields.append((a.get("name"), a.get("value") or ""))
            elif a.get("type") != "submit":
                self.others += 1
        elif tag in ("script", "img", "iframe", "a", "link", "object", "embed"):
            self.others += 1

    handle_startendtag = handle_starttag


def plain(x):
    if isinstance(x, Message):
        x = x.to_dict()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def same(v, w, text):
    """v: what was decided; w: what was sent; text: all values are strings there"""
    if v == w and isinstance(v, bool) == isinstance(w, bool):
        return True
    if isinstance(v, list):
        if all(isinstance(x, str) for x in v) and w == " ".join(v):
            return True
        if isinstance(w, list) and len(v) == len(w):
            return all(same(a, b, text) for a, b in zip(v, w))
        # redirect URIs and the like are kept in parts
        return isinstance(w, str) and len(v) == 1 and same(v[0], w, text)
    if isinstance(v, dict) and isinstance(w, dict):
        return set(w) <= set(v) and all((k in w and same(x, w[k], text)) or (k not in w and x in (None, "", [], {})) for k, x in v.items())
    return text and not isinstance(v, (dict, bool)) and str(v) == w


def headers(out, what):
    h = [(k.lower(), v) for k, v in out.get("http_headers", [])]
    ct = [v for k, v in h if k == "content-type"]
    res = []
    if len(set(ct)) != 1:
        res.append("%s: content types %s" % (what, ct))
    if not any(k == "cache-control" and "no-store" in v for k, v in h):
        res.append("%s: the answer may be cached: %s" % (what, h))
    return res, (ct[0].split(";")[0].strip() if ct else "")


def split(out, ep, uri):
    """-> (place, [(name, value)]) of an answer that goes through the user agent"""
    loc = out["response"]
    if out.get("response_placement", ep.response_placement) == "body":
        p = Form()
        p.feed(loc)
        return ("form", p.fields) if p.forms == 1 and p.action == uri and not p.others else None
    if not isinstance(loc, str) or not loc.startswith(uri):
        return None
    rest = loc[len(uri):]
    if rest[:1] == "#":
        return "fragment", parse_qsl(rest[1:], keep_blank_values=True, strict_parsing=True)
    if rest[:1] == ("&" if "?" in uri else "?") and "#" not in rest:
        return "query", parse_qsl(rest[1:], keep_blank_values=True, strict_parsing=True)
    return None


def compare(args, got, what, text=False, more=()):
    args = plain(args)
    res = []
    for k, v in args.items():
        if k not in got:
            if v not in (None, "", [], {}):
                res.append("%s: %s is not in the answer: %s" % (what, k, sorted(got)))
        elif not same(v, got[k], text):
            res.append("%s: %s is %r, what was sent is %r" % (what, k, v, got[k]))
    for k in got:
        if k not in args and k not in more:
            res.append("%s: the answer has %s=%r, which was not decided" % (what, k, got[k]))
    return res


def problems(server, endpoint, req, res, more=()):
    """res: what process_request returned, an answer or an error"""
    ep = server.server_get("endpoint", endpoint)
    if isinstance(res, dict) and ("redirect_location" in res or "http_response" in res):
        return []
    bad = isinstance(res, Message) or "error" in res
    if endpoint == "discovery":
        if bad:
            return []
        d = json.loads(ep.do_response(request=req, **res)["response"])
        want = {"subject": req["resource"], "links": [{"rel": "http://openid.net/specs/connect/1.0/issuer", "href": server.endpoint_context.issuer}]}
        return [] if d == want else ["discovery endpoint: %s is answered" % d]
    args = {k: v for k, v in res.items() if k in ("error", "error_description", "error_uri", "state")} if bad else res["response_args"]
    out = ep.do_response(request=req, **res)
    what = "%s endpoint" % endpoint
    more = tuple(more) + tuple(ep.response_cls.c_default)
    r, ct = headers(out, what)
    body = out["response"]
    if endpoint == "authorization" and not bad:
        if "response_msg" in res:
            return r
        s = split(out, ep, res["return_uri"])
        if s is None:
            return r + ["%s: the answer does not go to %s: %s" % (what, res["return_uri"], body)]
        if len(s[1]) != len(dict(s[1])):
            r.append("%s: repeated parameters: %s" % (what, s[1]))
        return r + compare(args, dict(s[1]), what, True, more)
    if out.get("response_placement", ep.response_placement) != "body":
        return r
    if endpoint == "userinfo" and not bad and ct == "application/jwt":
        if body.count(".") != 2:
            return r
        pl = factory(body).jwt.payload()
        env = ("iss", "aud", "iat")      # the JWT's own
        return r + compare({k: v for k, v in args.items() if k not in env}, pl, what, False, env)
    if ct != "application/json":
        return r + ["%s: content type %s" % (what, ct)]
    try:
        d = json.loads(body)
    except (TypeError, ValueError):
        return r + ["%s: not JSON: %r" % (what, body)]
    r += compare(args, d, what, False, more)
    if bad and set(d) & set(SECRETS):
        r.append("%s: an error with %s" % (what, sorted(set(d) & set(SECRETS))))
    return r
