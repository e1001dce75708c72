import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from opsys import *
S1, S2 = "hemligt_hemligt_hemligt_hemligt_1", "hemligt_hemligt_hemligt_hemligt_2"


def code_flow(server, user="diana", cid="c1", scope="openid offline_access", rt="code", state="s", **kw):
    r = authorize(server, user, dict({"client_id": cid, "redirect_uri": "https://%s.example.com/cb" % cid,
                  "response_type": rt, "scope": scope, "state": state, "nonce": "n", "prompt": "consent"}, **kw))
    assert r[0] == "ok", r
    return r[1]["response_args"], r[2]


def redeem(server, code, cid="c1", secret=S1, uri=None, **pkw):
    return call(server, "token", {"grant_type": "authorization_code", "code": code, "client_id": cid,
                "client_secret": secret, "redirect_uri": uri or "https://%s.example.com/cb" % cid}, **pkw)


def refresh(server, rt, cid="c1", secret=S1, scope=None, **pkw):
    q = {"grant_type": "refresh_token", "refresh_token": rt, "client_id": cid, "client_secret": secret}
    if scope:
        q["scope"] = scope
    return call(server, "token", q, **pkw)


def introspect(server, tok, cid="c1", secret=S1):
    r = call(server, "introspection", {"token": tok, "client_id": cid, "client_secret": secret})
    assert r[0] == "ok", r
    return r[1]["response_args"].to_dict()


def active(server, tok, cid="c1", secret=S1):
    return bool(introspect(server, tok, cid, secret).get("active"))


def userinfo(server, tok):
    return call(server, "userinfo", {}, http_info={"headers": {"authorization": "Bearer " + tok}})


def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.exit(1)
    print("fine:", what)


