"""Builds real oidcop servers (from /repo's working tree) and drives their endpoints the
way an HTTP front end does (parse_request -> process_request -> do_response)."""
import os, sys, json, copy, tempfile, atexit, shutil, logging
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
import vclock
vclock.install()
from vclock import CLOCK

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
logging.disable(logging.CRITICAL)

import oidcop
assert oidcop.__file__.startswith(os.path.join(REPO, "src")), oidcop.__file__

from cryptojwt.key_jar import KeyJar, build_keyjar, init_key_jar
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.jwt import JWT
from oidcop.server import Server
from oidcop.configure import OPConfiguration, ASConfiguration
from oidcop.cookie_handler import CookieHandler
from oidcop.user_info import UserInfo
from oidcop.authn_event import create_authn_event
from oidcmsg.message import Message

ISS = "https://op.example.org"
SCRATCH = tempfile.mkdtemp(prefix="opverif_")
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)

KEYDEFS = [
    {"type": "RSA", "key": "", "use": ["sig"], "bits": 1024},
    {"type": "EC", "crv": "P-256", "use": ["sig"]},
]
KEYDEFS2 = [
    {"type": "RSA", "key": "", "use": ["sig"]},
    {"type": "EC", "crv": "P-256", "use": ["sig"]},
]

_op_keyjar = None


def op_keyjar():
    """one OP key set per process"""
    global _op_keyjar
    if _op_keyjar is None:
        _op_keyjar = build_keyjar(KEYDEFS2)
        _op_keyjar.import_jwks(_op_keyjar.export_jwks(True, ""), ISS)
    kj = KeyJar()
    jwks = _op_keyjar.export_jwks(True, "")
    kj.import_jwks(jwks, "")
    kj.import_jwks(jwks, ISS)
    return kj


USERS = {
    "diana": {"name": "Diana Krall", "given_name": "Diana", "family_name": "Krall", "nickname": "D",
              "email": "diana@example.org", "email_verified": True,
              "phone_number": "+46 90 1", "address": {"street_address": "Umea univ", "locality": "Umea",
                                                     "postal_code": "SE-90187", "country": "Sweden"},
              "birthdate": "1964-11-16", "eduperson_x": "member"},
    "bob": {"name": "Bob Dylan", "given_name": "Bob", "family_name": "Dylan", "nickname": "B",
            "email": "bob@example.org", "email_verified": False,
            "phone_number": "+46 90 2", "address": {"street_address": "Duluth", "locality": "MN",
                                                   "postal_code": "55806", "country": "USA"},
            "birthdate": "1941-05-24", "eduperson_x": "guest"},
}

CAPABILITIES = {
    "response_types_supported": ["code", "token", "id_token", "code token", "code id_token",
                                 "id_token token", "code id_token token", "none"],
    "token_endpoint_auth_methods_supported": ["client_secret_post", "client_secret_basic",
                                              "client_secret_jwt", "private_key_jwt"],
    "response_modes_supported": ["query", "fragment", "form_post"],
    "subject_types_supported": ["public", "pairwise", "ephemeral"],
    "grant_types_supported": ["authorization_code", "implicit",
                              "urn:ietf:params:oauth:grant-type:jwt-bearer", "refresh_token"],
    "claim_types_supported": ["normal", "aggregated", "distributed"],
    "claims_parameter_supported": True,
    "request_parameter_supported": True,
    "request_uri_parameter_supported": True,
}

DEFAULT_USAGE = {
    "authorization_code": {"supports_minting": ["access_token", "refresh_token", "id_token"], "max_usage": 1,
                           "expires_in": 300},
    "access_token": {"expires_in": 600},
    "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"], "expires_in": 3600},
}

AUTHN_METHODS = ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"]


class FakeHTTP:
    """stand-in for the `requests` module: records POSTs, answers GETs from a table"""

    def __init__(self):
        self.posts = []
        self.gets = []
        self.table = {}
        self.post_status = {}

    class R:
        def __init__(self, status, text=""):
            self.status_code = status
            self.status = status
            self.text = text

        def json(self):
            return json.loads(self.text)

    def get(self, url, **kw):
        self.gets.append(url)
        if url in self.table:
            return self.R(200, self.table[url])
        return self.R(404, "")

    def post(self, url, data=None, **kw):
        self.posts.append((url, data))
        st = self.post_status.get(url, 200)
        if isinstance(st, Exception):
            raise st
        return self.R(st)

    def request(self, method, url, **kw):
        return self.get(url, **kw) if method.upper() == "GET" else self.post(url, **kw)


_srv_n = [0]


def base_conf(flavour="oidc", usage_rules=None, grant_expires_in=43200, token_kind="jwt", code_lifetime=600,
              token_lifetime=3600, refresh_lifetime=86400, token_kwargs=None, endpoints=None, add_on=None, capabilities=None,
              userinfo_kwargs=None, id_token_kwargs=None, introspection_kwargs=None, access_kwargs=None,
              session_params=None, authz=True, authentication=None, refresh_kind=None, extra=None, methods=None,
              jwks_path=None, claims_interface=None, session_endpoint=True, check_session=False, par=True,
              par_kwargs=None):
    from oidcop.oidc import userinfo
    if flavour == "oidc":
        from oidcop.oidc.authorization import Authorization
        from oidcop.oidc.token import Token
    else:
        from oidcop.oauth2.authorization import Authorization
        from oidcop.oauth2.token import Token
    from oidcop.oauth2.introspection import Introspection
    from oidcop.oauth2.pushed_authorization import PushedAuthorization
    from oidcop.oidc.registration import Registration
    from oidcop.oidc.read_registration import RegistrationRead
    from oidcop.oidc.provider_config import ProviderConfiguration
    from oidcop.oidc.session import Session

    _srv_n[0] += 1
    if jwks_path is None:
        jwks_path = os.path.join(SCRATCH, "tk_%d_%d.json" % (os.getpid(), _srv_n[0]))
    tk = {"lifetime": token_lifetime}
    tk.update(access_kwargs or {})
    rk = {"lifetime": refresh_lifetime}
    tok = {"class": "oidcop.token.jwt_token.JWTToken", "kwargs": tk} if token_kind == "jwt" else {"kwargs": tk}
    refresh_kind = refresh_kind or token_kind
    ref = {"class": "oidcop.token.jwt_token.JWTToken", "kwargs": rk} if refresh_kind == "jwt" else {"kwargs": rk}
    mets = methods or AUTHN_METHODS
    ep = {
        "provider_config": {"path": ".well-known/openid-configuration", "class": ProviderConfiguration,
                            "kwargs": {"client_authn_method": None}},
        "registration": {"path": "registration", "class": Registration, "kwargs": {"client_authn_method": None}},
        "registration_read": {"path": "registration_api", "class": RegistrationRead,
                              "kwargs": {"client_authn_method": ["bearer_header"]}},
        "authorization": {"path": "authorization", "class": Authorization, "kwargs": {"client_authn_method": None}},
        "token": {"path": "token", "class": Token, "kwargs": {"client_authn_method": mets}},
        "introspection": {"path": "introspection", "class": Introspection,
                          "kwargs": dict({"client_authn_method": mets}, **(introspection_kwargs or {}))},
    }
    if flavour == "oidc":
        ep["userinfo"] = {"path": "userinfo", "class": userinfo.UserInfo, "kwargs": userinfo_kwargs or {}}
        if session_endpoint:
            ep["session"] = {"path": "session", "class": Session,
                             "kwargs": {"post_logout_uri_path": "post_logout", "signing_alg": "ES256",
                                        "logout_verify_url": ISS + "/verify_logout",
                                        "client_authn_method": None}}
            if check_session:
                ep["session"]["kwargs"]["check_session_iframe"] = ISS + "/check_session_iframe.html"
    if par:
        ep["pushed_authorization"] = {"path": "pushed_authorization", "class": PushedAuthorization,
                                      "kwargs": dict({"client_authn_method": mets}, **(par_kwargs or {}))}
    for k, v in (endpoints or {}).items():
        if v is None:
            ep.pop(k, None)
        elif k in ep and "class" not in v:
            ep[k]["kwargs"].update(v)
        else:
            ep[k] = v
    tha = {"jwks_file": jwks_path, "code": {"kwargs": {"lifetime": code_lifetime}}, "token": tok, "refresh": ref}
    if flavour == "oidc":
        tha["id_token"] = {"class": "oidcop.token.id_token.IDToken", "kwargs": id_token_kwargs or {}}
    conf = {
        "issuer": ISS,
        "httpc_params": {"verify": False, "timeout": 1},
        "capabilities": copy.deepcopy(capabilities or CAPABILITIES),
        "keys": {"uri_path": "jwks.json", "key_defs": KEYDEFS2},
        "token_handler_args": tha,
        "endpoint": ep,
        "userinfo": {"class": UserInfo, "kwargs": {"db": copy.deepcopy(USERS)}},
        "cookie_handler": {"class": CookieHandler,
                           "kwargs": {"sign_key": "ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch",
                                      "name": {"session": "oidc_op", "register": "oidc_op_reg",
                                               "session_management": "oidc_op_sman"}}},
        "authentication": authentication or {
            "anon": {"acr": "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword",
                     "class": "oidcop.user_authn.user.NoAuthn", "kwargs": {"user": "diana"}}},
        "template_dir": "template",
        "claims_interface": claims_interface or {
            "class": "oidcop.session.claims.ClaimsInterface" if flavour == "oidc"
            else "oidcop.session.claims.OAuth2ClaimsInterface", "kwargs": {}},
    }
    if authz:
        gc = {"usage_rules": copy.deepcopy(usage_rules if usage_rules is not None else DEFAULT_USAGE)}
        if grant_expires_in:
            gc["expires_in"] = grant_expires_in
        conf["authz"] = {"class": "oidcop.authz.AuthzHandling", "kwargs": {"grant_config": gc}}
    if session_params:
        conf["session_params"] = session_params
    if add_on:
        conf["add_on"] = add_on
    if extra:
        conf.update(extra)
    return strings(conf)


def strings(x):
    """classes by name, as in a configuration file"""
    if isinstance(x, dict):
        return {k: strings(v) for k, v in x.items()}
    if isinstance(x, list):
        return [strings(v) for v in x]
    if isinstance(x, type):
        return x.__module__ + "." + x.__qualname__
    return x


def make_server(conf, flavour="oidc"):
    cls = OPConfiguration if flavour == "oidc" else ASConfiguration
    server = Server(cls(conf=conf, base_path=SCRATCH), cwd=SCRATCH, keyjar=op_keyjar(), httpc=FakeHTTP())
    return server


class DumpError(Exception):
    pass


def reload_server(server, conf, flavour="oidc", plain=False):
    """dump the server's state, pass it through JSON and load it into a new server with the same
    configuration.  The dump's copy of the configuration is left out: it holds references to
    objects (see DESIGN.md) and the new server has the same configuration anyway."""
    store = server.endpoint_context.dump()
    store.pop("conf", None)
    if plain:
        store = copy.deepcopy(store)
    else:
        try:
            store = json.loads(json.dumps(store))
        except TypeError as e:
            raise DumpError("the dump can not be written as JSON: %s" % e)
    new = make_server(conf, flavour)
    ctx = new.endpoint_context
    ctx.load(store, init_args={"server_get": new.server_get, "handler": ctx.session_manager.token_handler})
    return new


def client_entry(cid, secret, redirect_uris=None, **kw):
    e = {"client_id": cid, "client_secret": secret,
         "redirect_uris": redirect_uris or [("https://%s.example.com/cb" % cid, {})],
         "client_salt": "salted", "token_endpoint_auth_method": "client_secret_post",
         "response_types": ["code", "token", "code id_token", "id_token", "code id_token token", "id_token token",
                            "code token", "none"]}
    e.update(kw)
    return e


def add_client(server, cid, secret, **kw):
    ctx = server.endpoint_context
    ctx.cdb[cid] = client_entry(cid, secret, **kw)
    ctx.keyjar.add_symmetric(cid, secret, ["sig"])
    return ctx.cdb[cid]


def is_error(r):
    """is an endpoint's answer a refusal?"""
    if r is None:
        return True
    if isinstance(r, Message):
        return "error" in r
    if isinstance(r, dict):
        if "error" in r:
            return True
        ra = r.get("response_args")
        if ra is not None and "error" in ra:
            return True
    return False


WIRE = None      # a list: every answer is put on the wire too, what is wrong with it ends up here


def wired(server, endpoint, req, res):
    if WIRE is not None:
        import wire
        try:
            WIRE.extend(wire.problems(server, endpoint, req, res))
        except Exception as e:
            WIRE.append("%s endpoint: the answer can not be sent: %r" % (endpoint, e))


class Refused(Exception):
    def __init__(self, kind, detail=""):
        self.kind = kind
        self.detail = detail


def call(server, endpoint, request, http_info=None, **pkw):
    """one HTTP request against an endpoint.
    returns ("ok", process_result, request_instance) or ("err", code, detail)
    Any exception escaping is what the front end turns into an HTTP error: also ("err", ...)"""
    ep = server.server_get("endpoint", endpoint)
    if http_info is None:
        http_info = {"headers": {}, "url": ep.full_path, "method": "POST"}
    try:
        req = ep.parse_request(request, http_info=http_info)
    except Exception as e:  # the front end answers 4xx
        return ("err", "exc:" + type(e).__name__, str(e))
    if is_error(req):
        return ("err", req.get("error"), req.get("error_description", ""))
    try:
        res = ep.process_request(req, http_info=http_info, **pkw)
    except Exception as e:
        return ("err", "exc:" + type(e).__name__, str(e))
    wired(server, endpoint, req, res)
    if is_error(res):
        if isinstance(res, Message) or "error" in res:
            return ("err", res.get("error"), res.get("error_description", ""))
        return ("err", res["response_args"].get("error"), res["response_args"].get("error_description", ""))
    return ("ok", res, req)


def authorize(server, user, request, authn_info="pwd", authn_time=0, valid_until=0, sub_type="public"):
    """What an OP front end does once `user` has logged in for `request`:
    parse, create the session, then the second half of the authorization endpoint.
    returns ("ok", resp_info, sid) | ("err", code, detail)"""
    ep = server.server_get("endpoint", "authorization")
    ctx = server.endpoint_context
    try:
        req = ep.parse_request(request, http_info={"headers": {}})
    except Exception as e:
        return ("err", "exc:" + type(e).__name__, str(e))
    if is_error(req):
        return ("err", req.get("error"), req.get("error_description", ""))
    ev = create_authn_event(user, authn_info=authn_info, authn_time=authn_time, valid_until=valid_until)
    try:
        sid = ctx.session_manager.create_session(
            ev, req, user, client_id=req["client_id"], sub_type=sub_type,
            token_usage_rules=ctx.authz.usage_rules(req["client_id"]))
    except Exception as e:
        return ("err", "exc:" + type(e).__name__, str(e))
    try:
        resp = ep.authz_part2(req, sid)
    except Exception as e:
        return ("err", "exc:" + type(e).__name__, str(e))
    wired(server, "authorization", req, resp)
    if is_error(resp):
        ra = resp.get("response_args") or resp
        return ("err", ra.get("error"), ra.get("error_description", ""))
    return ("ok", resp, sid)
