From 0f2052d501558134ffc7a93fd2ac87d2285c7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 01/60] fix: userinfo must not serve access tokens of a revoked
 or expired grant

---
 src/oidcop/oidc/userinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 6e6ce97..e6b3935 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -122,7 +122,7 @@ class UserInfo(Endpoint):
             return self.error_cls(error="invalid_token", error_description="Wrong type of token")
 
         # And it should be valid
-        if token.is_active() is False:
+        if token.is_active() is False or _grant.is_active() is False:
             return self.error_cls(error="invalid_token", error_description="Invalid Token")
 
         allowed = True
-- 
2.43.0


From 246e7a79310d67c736afd77fa97eb40c5a72b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 02/60] fix: introspection must not report tokens of a revoked
 or expired grant as active

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index c298c12..84e7367 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -30,7 +30,8 @@ class Introspection(Endpoint):
         if token.token_class not in ["access_token", "refresh_token"]:
             return None
 
-        if not token.is_active():
+        # A token is never more alive than the grant it belongs to
+        if not token.is_active() or not grant.is_active():
             return None
 
         scope = token.scope
-- 
2.43.0


From 1e2fa2e48675370237cf2d12f85dd280e80d9a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:00 +0000
Subject: [PATCH 03/60] fix: introspection answers inactive for expired tokens
 and tokens of removed sessions

---
 src/oidcop/oauth2/introspection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index 84e7367..e1e926d 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -5,6 +5,7 @@ from typing import Optional
 from oidcmsg import oauth2
 
 from oidcop.endpoint import Endpoint
+from oidcop.exception import ToOld
 from oidcop.token.exception import UnknownToken
 from oidcop.token.exception import WrongTokenClass
 
@@ -96,11 +97,14 @@ class Introspection(Endpoint):
             _session_info = _context.session_manager.get_session_info_by_token(
                 request_token, grant=True
             )
-        except (UnknownToken, WrongTokenClass):
+        except (UnknownToken, WrongTokenClass, ToOld, KeyError, ValueError):
+            # unknown, not a token we can introspect, too old or its session is gone
             return {"response_args": _resp}
 
         grant = _session_info["grant"]
         _token = grant.get_token(request_token)
+        if _token is None:
+            return {"response_args": _resp}
 
         _info = self._introspect(_token, _session_info["client_id"], _session_info["grant"])
         if _info is None:
-- 
2.43.0


From f97f9292c4125c6fd2d3f7e4fcd91b0a6b9d40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 04/60] fix: a pushed authorization request can only be used by
 the client that pushed it

---
 src/oidcop/oauth2/authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 86b7ce8..f8d8b1e 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -358,6 +358,8 @@ class Authorization(Endpoint):
                 if _request_uri.startswith("urn:uuid:"):
                     _req = endpoint_context.par_db.get(_request_uri)
                     if _req:
+                        if _req.get("client_id") != client_id:
+                            raise ValueError("Got a request_uri that belongs to another client")
                         # One time usage
                         del endpoint_context.par_db[_request_uri]
                         return _req
-- 
2.43.0


From 7bc41e6a6a56ed372cb3843e9faf874ae0c40ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 05/60] fix: enforce the announced lifetime of pushed
 authorization requests

---
 src/oidcop/oauth2/authorization.py        | 7 +++++--
 src/oidcop/oauth2/pushed_authorization.py | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index f8d8b1e..417a67c 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -356,12 +356,15 @@ class Authorization(Endpoint):
             if _endp:
                 # Is it a UUID urn
                 if _request_uri.startswith("urn:uuid:"):
-                    _req = endpoint_context.par_db.get(_request_uri)
-                    if _req:
+                    _par = endpoint_context.par_db.get(_request_uri)
+                    if _par:
+                        _req = _par["request"]
                         if _req.get("client_id") != client_id:
                             raise ValueError("Got a request_uri that belongs to another client")
                         # One time usage
                         del endpoint_context.par_db[_request_uri]
+                        if utc_time_sans_frac() > _par["expires_at"]:
+                            raise ValueError("Got a request_uri that has expired")
                         return _req
                     else:
                         raise ValueError("Got a request_uri I can not resolve")
diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index d1f84f8..dfb8ca5 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -1,6 +1,7 @@
 import uuid
 
 from oidcmsg import oauth2
+from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.oauth2.authorization import Authorization
 
@@ -30,7 +31,10 @@ class PushedAuthorization(Authorization):
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-        self.server_get("endpoint_context").par_db[_urn] = request
+        self.server_get("endpoint_context").par_db[_urn] = {
+            "request": request,
+            "expires_at": utc_time_sans_frac() + self.ttl,
+        }
 
         return {
             "http_response": {"request_uri": _urn, "expires_in": self.ttl},
-- 
2.43.0


From 86260aca597596d9db6627fb588e3525e53d460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 06/60] fix: cookie values and types containing the cookie's
 own delimiters must round trip

---
 src/oidcop/cookie_handler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index cb8130e..122654d 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -6,6 +6,8 @@ import time
 from typing import List
 from typing import Optional
 from typing import Union
+from urllib.parse import quote
+from urllib.parse import unquote
 from urllib.parse import urlparse
 
 from cryptography.exceptions import InvalidTag
@@ -218,9 +220,9 @@ class CookieHandler:
             _cookie_value = ""
         else:
             try:
-                cookie_payload = "::".join([value, typ])
+                cookie_payload = "::".join([quote(value), quote(typ)])
             except TypeError:
-                cookie_payload = "::".join([value[0], typ])
+                cookie_payload = "::".join([quote(value[0]), quote(typ)])
 
             _cookie_value = self._sign_enc_payload(cookie_payload, timestamp)
 
@@ -261,7 +263,7 @@ class CookieHandler:
                 _content = self._ver_dec_content(_cookie["value"].split("|"))
                 if _content:
                     payload, timestamp = self._ver_dec_content(_cookie["value"].split("|"))
-                    value, typ = payload.split("::")
+                    value, typ = [unquote(part) for part in payload.split("::")]
                     res.append({"value": value, "type": typ, "timestamp": timestamp})
                 else:
                     LOGGER.debug(f"Could not verify {name} cookie")
-- 
2.43.0


From ed6758557b5bf4aa76e5fbb4f419551d0390a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 07/60] fix: delimit payload and timestamp in the signed cookie
 input

---
 src/oidcop/cookie_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 122654d..8103ec0 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -111,7 +111,7 @@ class CookieHandler:
 
         if self.sign_key:
             signer = HMACSigner(algorithm=self.sign_alg)
-            mac = signer.sign(bytes_load + bytes_timestamp, self.sign_key.key)
+            mac = signer.sign(bytes_load + b"|" + bytes_timestamp, self.sign_key.key)
         else:
             mac = b""
 
@@ -156,7 +156,7 @@ class CookieHandler:
             mac = base64.b64decode(b64_mac)
             verifier = HMACSigner(algorithm=self.sign_alg)
             if verifier.verify(
-                    payload.encode("utf-8") + timestamp.encode("utf-8"),
+                    payload.encode("utf-8") + b"|" + timestamp.encode("utf-8"),
                     mac,
                     self.sign_key.key,
             ):
@@ -181,7 +181,7 @@ class CookieHandler:
             if len(p) == 3:
                 verifier = HMACSigner(algorithm=self.sign_alg)
                 if verifier.verify(
-                        payload.encode("utf-8") + timestamp.encode("utf-8"),
+                        payload.encode("utf-8") + b"|" + timestamp.encode("utf-8"),
                         base64.b64decode(p[2]),
                         self.sign_key.key,
                 ):
-- 
2.43.0


From 2a81ea1400481035ff0b775847ce15339e0d98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 08/60] fix: logging out from all clients must end the sessions
 of clients that can not be notified too

---
 src/oidcop/oidc/session.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 79a7f9d..a689112 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -167,6 +167,10 @@ class Session(Endpoint):
         fc_iframes = {}
         _rel_sid = []
         for _client_id in _session_info["user_session_info"].subordinate:
+            # All sessions are to be ended. Also those with clients that can not be notified.
+            for gid in _mngr.get([_user_id, _client_id]).subordinate:
+                _rel_sid.append(_mngr.encrypted_session_id(_user_id, _client_id, gid))
+
             # I prefer back-channel. Should it be configurable ?
             if "backchannel_logout_uri" in _cdb[_client_id]:
                 _cli = _mngr.get([_user_id, _client_id])
@@ -177,7 +181,6 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _rel_sid.append(idt.session_id)
                         _spec = self.do_back_channel_logout(_cdb[_client_id], idt.session_id)
                         if _spec:
                             bc_logouts[_client_id] = _spec
@@ -191,7 +194,6 @@ class Session(Endpoint):
                         continue
                     idt = grant.last_issued_token_of_type("id_token")
                     if idt:
-                        _rel_sid.append(idt.session_id)
                         # Construct an IFrame
                         _spec = do_front_channel_logout_iframe(
                             _cdb[_client_id], _iss, idt.session_id
-- 
2.43.0


From 82a5871e051f189028a028d0e6e2dcf21fa802ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 09/60] fix: a client that can not be reached must not stop
 other clients from being notified of a logout

---
 src/oidcop/oidc/session.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index a689112..db52c2a 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -410,12 +410,17 @@ class Session(Endpoint):
                 _url, sjwt = spec
                 logger.info("logging out from {} at {}".format(_cid, _url))
 
-                res = _context.httpc.post(
-                    _url,
-                    data="logout_token={}".format(sjwt),
-                    headers={"Content-Type": "application/x-www-form-urlencoded"},
-                    **_context.httpc_params,
-                )
+                try:
+                    res = _context.httpc.post(
+                        _url,
+                        data="logout_token={}".format(sjwt),
+                        headers={"Content-Type": "application/x-www-form-urlencoded"},
+                        **_context.httpc_params,
+                    )
+                except Exception as err:
+                    # One unreachable client must not stop the others from being notified
+                    logger.error("failed to reach {}: {}".format(_cid, err))
+                    continue
 
                 if res.status_code < 300:
                     logger.info("Logged out from {}".format(_cid))
-- 
2.43.0


From a17cf5f9c495c64221bd7d316a495aba3fd08c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 10/60] fix: user IDs that happen to be valid base64 must not
 break single sign-on

---
 src/oidcop/oauth2/authorization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 417a67c..8b28f6f 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -522,10 +522,14 @@ class Authorization(Endpoint):
 
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
+            if "sid" in identity:  # Based on a session, the user ID is what it is
+                return identity
             try:
-                _id = b64d(as_bytes(identity["uid"]))
-            except BadSyntax:
+                _id = json.loads(as_unicode(b64d(as_bytes(identity["uid"]))))
+            except (BadSyntax, ValueError):
                 return identity
+            # A plain user ID may by chance be decodable
+            return _id if isinstance(_id, dict) else identity
         else:
             _id = b64d(as_bytes(identity))
 
-- 
2.43.0


From b30784c65db370d6048cf494addfaa4a24db33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 11/60] fix: prompt=none must give login_required whenever a
 login would be needed

---
 src/oidcop/oauth2/authorization.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 8b28f6f..7ad1ff0 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -535,6 +535,13 @@ class Authorization(Endpoint):
 
         return json.loads(as_unicode(_id))
 
+    def _demand_login(self, request, redirect_uri, authn, authn_args):
+        if "prompt" in request and "none" in request["prompt"]:
+            # Need to authenticate but not allowed
+            return self._login_required_error(redirect_uri, request)
+        else:
+            return {"function": authn, "args": authn_args}
+
     def setup_auth(
         self,
         request: Optional[Union[Message, dict]],
@@ -607,26 +614,19 @@ class Authorization(Endpoint):
             logger.info("No active authentication")
             logger.debug("Known clients: {}".format(list(_context.cdb.keys())))
 
-            if "prompt" in request and "none" in request["prompt"]:
-                # Need to authenticate but not allowed
-                return self._login_required_error(redirect_uri, request)
-            else:
-                return {"function": authn, "args": authn_args}
+            return self._demand_login(request, redirect_uri, authn, authn_args)
         else:
             logger.info(f"Active authentication: {identity}")
             if re_authenticate(request, authn):
                 # demand re-authentication
-                return {"function": authn, "args": authn_args}
+                return self._demand_login(request, redirect_uri, authn, authn_args)
             else:
                 # I got back a dictionary
                 user = identity["uid"]
                 if "req_user" in kwargs:
                     if user != kwargs["req_user"]:
                         logger.debug("Wanted to be someone else!")
-                        if "prompt" in request and "none" in request["prompt"]:
-                            return self._login_required_error(redirect_uri, request)
-                        else:
-                            return {"function": authn, "args": authn_args}
+                        return self._demand_login(request, redirect_uri, authn, authn_args)
 
                 if "sid" in identity:
                     _session_id = identity["sid"]
@@ -634,15 +634,15 @@ class Authorization(Endpoint):
                     # make sure the client is the same
                     _uid, _cid, _gid = _mngr.decrypt_session_id(_session_id)
                     if request["client_id"] != _cid:
-                        return {"function": authn, "args": authn_args}
+                        return self._demand_login(request, redirect_uri, authn, authn_args)
 
                     grant = _mngr[_session_id]
                     if grant.is_active() is False:
-                        return {"function": authn, "args": authn_args}
+                        return self._demand_login(request, redirect_uri, authn, authn_args)
                     elif request != grant.authorization_request:
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
-                            return {"function": authn, "args": authn_args}
+                            return self._demand_login(request, redirect_uri, authn, authn_args)
 
                         # create new grant
                         _session_id = _mngr.create_grant(
@@ -655,7 +655,7 @@ class Authorization(Endpoint):
         if _session_id:
             authn_event = _mngr.get_authentication_event(session_id=_session_id)
             if authn_event.is_valid() is False:  # if not valid, do new login
-                return {"function": authn, "args": authn_args}
+                return self._demand_login(request, redirect_uri, authn, authn_args)
         else:
             _session_id = self.create_session(request, identity["uid"], authn_class_ref, _ts, authn)
 
-- 
2.43.0


From dd662e720ff58957e2e8064e8883dfab8a5f7150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 12/60] fix: a cookie of a removed session means the user has
 to log in, not a server error

---
 src/oidcop/oauth2/authorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 7ad1ff0..049dae0 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -597,8 +597,8 @@ class Authorization(Endpoint):
                 if _sid:
                     try:
                         _csi = _context.session_manager[_sid]
-                    except Revoked:
-                        logger.debug("Authentication session revoked!!")
+                    except (Revoked, KeyError, ValueError):
+                        logger.debug("Authentication session revoked or removed!!")
                         identity = None
                     else:
                         logger.debug(f"Session info type: {_csi.__class__.__name__}")
-- 
2.43.0


From c9f187f4e38fd9f59c2de685746de636c453e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 13/60] fix: max_age counts from when the user logged in, not
 from the latest cookie renewal

---
 src/oidcop/oauth2/authorization.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 049dae0..bfd5958 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -89,6 +89,16 @@ def max_age(request):
     return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
 
 
+def login_too_old(request, authn_event):
+    """The time since the user actually logged in is more than what the request allows."""
+    _max_age = request.get(verified_claim_name("request"), {}).get("max_age")
+    if _max_age is None:
+        _max_age = request.get("max_age")
+    if _max_age is None:
+        return False
+    return utc_time_sans_frac() > authn_event["authn_time"] + int(_max_age)
+
+
 def verify_uri(
     endpoint_context: EndpointContext,
     request: Union[dict, Message],
@@ -639,6 +649,9 @@ class Authorization(Endpoint):
                     grant = _mngr[_session_id]
                     if grant.is_active() is False:
                         return self._demand_login(request, redirect_uri, authn, authn_args)
+                    elif login_too_old(request, grant.authentication_event):
+                        # The cookie may have been renewed since the user logged in
+                        return self._demand_login(request, redirect_uri, authn, authn_args)
                     elif request != grant.authorization_request:
                         authn_event = _mngr.get_authentication_event(session_id=_session_id)
                         if authn_event.is_valid() is False:  # if not valid, do new login
-- 
2.43.0


From 3a36636db065c533055dd9f57452ea1a6c3c6d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 14/60] fix: unusable session cookies mean the user has to log
 in, not a server error

---
 src/oidcop/oauth2/authorization.py | 6 +++++-
 src/oidcop/user_authn/user.py      | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index bfd5958..779a357 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -10,6 +10,7 @@ from urllib.parse import urlparse
 from cryptojwt import BadSyntax
 from cryptojwt import as_unicode
 from cryptojwt import b64d
+from cryptojwt.exception import VerificationError
 from cryptojwt.jwe.exception import JWEException
 from cryptojwt.jws.exception import NoSuitableSigningKeys
 from cryptojwt.utils import as_bytes
@@ -1012,7 +1013,10 @@ class Authorization(Endpoint):
         if _cookies:
             logger.debug("parse_cookie@process_request")
             _session_cookie_name = _context.cookie_handler.name["session"]
-            _my_cookies = _context.cookie_handler.parse_cookie(_session_cookie_name, _cookies)
+            try:
+                _my_cookies = _context.cookie_handler.parse_cookie(_session_cookie_name, _cookies)
+            except (VerificationError, ValueError):  # Tampered with, as good as no cookie
+                _my_cookies = {}
         else:
             _my_cookies = {}
 
diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 9e54e3a..4a77006 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -109,7 +109,10 @@ class UserAuthnMethod(object):
             for val in cookie:
                 _info = json.loads(val["value"])
                 _info["timestamp"] = int(val["timestamp"])
-                session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                try:
+                    session_id = _context.session_manager.decrypt_session_id(_info["sid"])
+                except (KeyError, ValueError):  # Not a cookie of a login session
+                    continue
                 logger.debug("cookie_info: session id={}".format(session_id))
                 # _, cid, _ = _context.session_manager.decrypt_session_id(_info["sid"])
                 if session_id[1] != client_id:
-- 
2.43.0


From f377f9d990f44b74311623e0184968d175e71729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 15/60] fix: check type and signing algorithm of DPoP proofs

---
 src/oidcop/oauth2/add_on/dpop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index 472c5ea..dcc6b23 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -105,6 +105,11 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
     # The signature of the JWS is verified, now for checking the
     # content
 
+    _dpop.verify()
+
+    if _dpop["alg"] not in endpoint_context.provider_info["dpop_signing_alg_values_supported"]:
+        raise ValueError("Signing algorithm not supported for DPoP proofs")
+
     if _dpop["htu"] != _http_info["url"]:
         raise ValueError("htu in DPoP does not match the HTTP URI")
 
-- 
2.43.0


From 2696a2074acd0098e31530325a4a73289e9220c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 16/60] fix: do not modify the client's claims configuration
 when adding claims of a second release point

---
 src/oidcop/session/claims.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index bcea058..475c4f7 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -82,7 +82,8 @@ class ClaimsInterface:
         _always_add = add_claims_always.get(claims_release_point, [])
         if secondary_identifier:
             _always_2 = add_claims_always.get(secondary_identifier, [])
-            _always_add.extend(_always_2)
+            # Don't touch the client's configuration
+            _always_add = list(_always_add) + list(_always_2)
 
         return _claims_by_scope, _always_add
 
-- 
2.43.0


From d500d1cac23a7abaf07e8c025d459aca6d0170c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 17/60] fix: usage rules handed out must not share state with
 the client's configuration

---
 src/oidcop/authz/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/authz/__init__.py b/src/oidcop/authz/__init__.py
index 72b6979..4359496 100755
--- a/src/oidcop/authz/__init__.py
+++ b/src/oidcop/authz/__init__.py
@@ -30,7 +30,10 @@ class AuthzHandling(object):
             return _usage_rules
 
         try:
-            _per_client = self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            # copied since what's returned here may be modified later on
+            _per_client = copy.deepcopy(
+                self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            )
         except KeyError:
             pass
         else:
-- 
2.43.0


From 0ca3a519ecdb968214f30c4344dad2eecc6a745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:38 +0000
Subject: [PATCH 18/60] fix: the subject type and sector a client registered
 decide its subject identifiers

---
 src/oidcop/oauth2/authorization.py | 16 ++++++++++++++++
 src/oidcop/session/manager.py      |  8 +++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 779a357..8a013f0 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -498,6 +498,20 @@ class Authorization(Endpoint):
                 "return_type": request["response_type"],
             }
 
+    def _subject_args(self, client_id):
+        """What decides the kind of subject identifier this client should get"""
+        _cinfo = self.server_get("endpoint_context").cdb.get(client_id, {})
+        _args = {"sub_type": _cinfo.get("subject_type") or "public"}
+        if _args["sub_type"] == "pairwise":
+            # Without a sector identifier URI it's the host of the (first) redirect URI
+            _sector = _cinfo.get("sector_identifier_uri")
+            if not _sector and _cinfo.get("redirect_uris"):
+                _uri = _cinfo["redirect_uris"][0]
+                _sector = _uri if isinstance(_uri, str) else _uri[0]
+            if _sector:
+                _args["sector_identifier"] = urlparse(_sector).netloc
+        return _args
+
     def create_session(self, request, user_id, acr, time_stamp, authn_method):
         _context = self.server_get("endpoint_context")
         _mngr = _context.session_manager
@@ -517,6 +531,7 @@ class Authorization(Endpoint):
             user_id=user_id,
             client_id=request["client_id"],
             token_usage_rules=_token_usage_rules,
+            **self._subject_args(request["client_id"]),
         )
 
     def _login_required_error(self, redirect_uri, request):
@@ -664,6 +679,7 @@ class Authorization(Endpoint):
                             auth_req=request,
                             user_id=user,
                             client_id=request["client_id"],
+                            **self._subject_args(request["client_id"]),
                         )
 
         if _session_id:
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 3bddebc..e6fcdee 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -167,6 +167,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = "",
     ) -> str:
         """
 
@@ -177,9 +178,11 @@ class SessionManager(Database):
         :param client_id:
         :param sub_type:
         :param token_usage_rules:
+        :param sector_identifier: The sector the client belongs to, for pairwise subjects
         :return:
         """
-        sector_identifier = auth_req.get("sector_identifier_uri", "")
+        if not sector_identifier:
+            sector_identifier = auth_req.get("sector_identifier_uri", "")
 
         _claims = auth_req.get("claims", {})
 
@@ -207,6 +210,7 @@ class SessionManager(Database):
         sub_type: Optional[str] = "public",
         token_usage_rules: Optional[dict] = None,
         scopes: Optional[list] = None,
+        sector_identifier: Optional[str] = "",
     ) -> str:
         """
         Create part of a user session. The parts added are user- and client
@@ -219,6 +223,7 @@ class SessionManager(Database):
         :param user_id: User ID
         :param sub_type: What kind of subject will be assigned
         :param token_usage_rules: Rules for how tokens can be used
+        :param sector_identifier: The sector the client belongs to, for pairwise subjects
         :return: Session key
         """
 
@@ -245,6 +250,7 @@ class SessionManager(Database):
             sub_type=sub_type,
             token_usage_rules=token_usage_rules,
             scopes=scopes,
+            sector_identifier=sector_identifier,
         )
 
     def __getitem__(self, session_id: str):
-- 
2.43.0


From 4bdb292d9619ac084cafde7bc2748fc21400a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 19/60] fix: redirect URIs of native clients must not contain a
 fragment either

---
 src/oidcop/oidc/registration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 529664a..72874cf 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -285,6 +285,8 @@ class Registration(Endpoint):
         for uri in registration_request["redirect_uris"]:
             _custom = False
             p = urlparse(uri)
+            if p.fragment:
+                raise InvalidRedirectURIError("redirect_uri contains fragment")
             if client_type == "native":
                 if p.scheme not in ["http", "https"]:  # Custom scheme
                     _custom = True
@@ -305,8 +307,6 @@ class Registration(Endpoint):
             elif p.scheme not in ["http", "https"]:
                 # Custom scheme
                 raise InvalidRedirectURIError("Custom redirect_uri not allowed for web client")
-            elif p.fragment:
-                raise InvalidRedirectURIError("redirect_uri contains fragment")
 
             if _custom:  # Can not verify a custom scheme
                 verified_redirect_uris.append((uri, {}))
-- 
2.43.0


From fdbb9b7fc3adcd04fc3dc9fe5d26ebbb13781859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:25 +0000
Subject: [PATCH 20/60] fix: a refused client registration must not leave a
 client behind

---
 src/oidcop/oidc/registration.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 72874cf..2daf404 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -382,6 +382,15 @@ class Registration(Endpoint):
 
         return client_secret
 
+    def _forget_registration(self, client_id, registration_access_token, previous=None):
+        """A refused registration must not leave anything behind"""
+        _context = self.server_get("endpoint_context")
+        if previous is None:
+            del _context.cdb[client_id]
+        else:
+            _context.cdb[client_id] = previous
+        _context.registration_access_token.pop(registration_access_token, None)
+
     def client_registration_setup(self, request, new_id=True, set_secret=True):
         try:
             request.verify()
@@ -433,13 +442,20 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        _previous = _context.cdb.get(client_id)
+        _rat = _cinfo.get("registration_access_token")
         _context.cdb[client_id] = _cinfo
-        _cinfo = self.do_client_registration(
-            request,
-            client_id,
-            ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
-        )
+        try:
+            _cinfo = self.do_client_registration(
+                request,
+                client_id,
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+            )
+        except Exception:
+            self._forget_registration(client_id, _rat, _previous)
+            raise
         if isinstance(_cinfo, ResponseMessage):
+            self._forget_registration(client_id, _rat, _previous)
             return _cinfo
 
         args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
-- 
2.43.0


From 1a57455d8d0aff4b742bc30d354460f4eab48e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 21/60] fix: a registration request must not choose the
 credentials the server issues

---
 src/oidcop/oidc/registration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 2daf404..7f12f12 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -449,7 +449,8 @@ class Registration(Endpoint):
             _cinfo = self.do_client_registration(
                 request,
                 client_id,
-                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"],
+                # What I've decided on is not for the client to change
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"] + list(_cinfo),
             )
         except Exception:
             self._forget_registration(client_id, _rat, _previous)
-- 
2.43.0


From 897f395d6f8592e76636b4f167f9648cdb2b8d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 22/60] fix: a bearer token in the body only authenticates the
 client it was issued to

---
 src/oidcop/client_authn.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index a34e632..ac4fc67 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -417,6 +417,17 @@ def verify_client(
         except KeyError:
             raise BearerTokenAuthenticationError("Unknown token")
 
+    if client_id and _token and get_client_id_from_token:
+        # A client_id in the request doesn't count unless the token is that client's
+        try:
+            _owner = get_client_id_from_token(endpoint_context, _token, request)
+        except ToOld:
+            raise BearerTokenAuthenticationError("Expired token")
+        except KeyError:
+            raise BearerTokenAuthenticationError("Unknown token")
+        if _owner != client_id:
+            raise BearerTokenAuthenticationError("Token belongs to another client")
+
     return auth_info
 
 
-- 
2.43.0


From 261ac8f9ef4ebaa71b9cad771a5f09dd0668085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 23/60] fix: assertion identifiers of different clients must
 never be confused

---
 src/oidcop/client_authn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index ac4fc67..ce3c8cc 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -26,6 +26,7 @@ from oidcop.exception import NotForMe
 from oidcop.exception import ToOld
 from oidcop.exception import UnknownClient
 from oidcop.util import importer
+from oidcop.util import lv_pack
 
 logger = logging.getLogger(__name__)
 
@@ -226,7 +227,7 @@ class JWSAuthnMethod(ClientAuthnMethod):
         # If there is a jti use it to make sure one-time usage is true
         _jti = ca_jwt.get("jti")
         if _jti:
-            _key = "{}:{}".format(ca_jwt["iss"], _jti)
+            _key = lv_pack(ca_jwt["iss"], _jti)
             if _key in _context.jti_db:
                 raise MultipleUsage("Have seen this token once before")
             else:
@@ -288,7 +289,7 @@ class RequestParam(ClientAuthnMethod):
         # If there is a jti use it to make sure one-time usage is true
         _jti = _jwt.get("jti")
         if _jti:
-            _key = "{}:{}".format(_jwt["iss"], _jti)
+            _key = lv_pack(_jwt["iss"], _jti)
             if _key in _context.jti_db:
                 raise MultipleUsage("Have seen this token once before")
             else:
-- 
2.43.0


From c1be1dbc5ac0d3a7e80b6ffbd2060aaa3d36dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 24/60] fix: deleting a user or client session must delete
 everything below it and nothing else

---
 src/oidcop/session/database.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 8f4e79e..caa1b6a 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -131,7 +131,11 @@ class Database(ImpExp):
         if uid not in self.db:
             return
         elif not client_id:
-            self.db.__delitem__(uid)
+            # with the user goes everything that belongs to the user
+            for _cid in list(getattr(self.db[uid], "subordinate", [])):
+                self.delete([uid, _cid])
+            if uid in self.db:
+                self.db.__delitem__(uid)
             return
 
         _user_info = self.db[uid]
@@ -151,6 +155,7 @@ class Database(ImpExp):
                     _client_info.subordinate.remove(grant_id)
             else:
                 for grant_id in _client_info.subordinate:
+                    skey_uid_client_grant = self.session_key(uid, client_id, grant_id)
                     if skey_uid_client_grant in self.db:
                         self.db.__delitem__(skey_uid_client_grant)
                 _client_info.subordinate = []
@@ -159,7 +164,7 @@ class Database(ImpExp):
                 self.db.__delitem__(skey_uid_client)
                 _user_info.subordinate.remove(client_id)
             else:
-                self.db[client_id] = _client_info
+                self.db[skey_uid_client] = _client_info
 
         if len(_user_info.subordinate) == 0:
             self.db.__delitem__(uid)
-- 
2.43.0


From 919bb673304d73decd1dab2080b57cc3e6885cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 25/60] fix: asking for both grant and authentication event of
 a session

---
 src/oidcop/session/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index e6fcdee..aeaf686 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -460,7 +460,7 @@ class SessionManager(Database):
 
         if authentication_event:
             if grant:
-                res["authentication_event"] = res["grant"]["authentication_event"]
+                res["authentication_event"] = res["grant"].authentication_event
             else:
                 _grant = self.get([_user_id, _client_id, _grant_id])
                 res["authentication_event"] = _grant.authentication_event
-- 
2.43.0


From ee0f653111e98ed57ecf45992cdeeac5efb52d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 26/60] fix: deleting a client session that does not exist must
 not touch anything else

---
 src/oidcop/session/database.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index caa1b6a..d165712 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -143,7 +143,6 @@ class Database(ImpExp):
         skey_uid_client_grant = self.session_key(uid, client_id, grant_id or "")
 
         if client_id not in _user_info.subordinate:
-            self.db.__delitem__(client_id)
             return
 
         elif skey_uid_client in self.db:
-- 
2.43.0


From f02c7e8a74c3f193a552df98318ee5849c1e4ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 27/60] fix: request objects must be issued by the requesting
 client under an algorithm allowed for it

---
 src/oidcop/oauth2/authorization.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 8a013f0..16f9d02 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -427,6 +427,19 @@ class Authorization(Endpoint):
 
         return request
 
+    def _verify_request_object(self, request, client_id, endpoint_context):
+        _object = request.get(verified_claim_name("request"))
+        if not _object:
+            return
+
+        if request["client_id"] != client_id:
+            raise ValueError("The request object is for another client")
+        if _object.get("iss", client_id) != client_id:
+            raise ValueError("The request object was issued by another client")
+
+        _alg = (_object.jws_header or {}).get("alg", "none")
+        self.allowed_request_algorithms(client_id, endpoint_context, _alg, "sign")
+
     def _post_parse_request(self, request, client_id, endpoint_context, **kwargs):
         """
         Verify the authorization request.
@@ -452,6 +465,14 @@ class Authorization(Endpoint):
                 request, error="unauthorized_client", error_description="unknown client"
             )
 
+        # A request object must come from the client that makes the request
+        try:
+            self._verify_request_object(request, client_id, endpoint_context)
+        except ValueError as err:
+            return self.authentication_error_response(
+                request, error="invalid_request_object", error_description=f"{err}"
+            )
+
         # Is the asked for response_type among those that are permitted
         if not self.verify_response_type(request, _cinfo):
             return self.authentication_error_response(
-- 
2.43.0


From 6d377ecf252b3b8dd8b5f1e307c504a7d167c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:51 +0000
Subject: [PATCH 28/60] fix: verify the redirect URI literally, including empty
 fragments and blank query parameters

---
 src/oidcop/oauth2/authorization.py | 11 +++++------
 src/oidcop/util.py                 |  2 +-
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 16f9d02..7b14447 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -3,7 +3,6 @@ import logging
 from typing import List
 from typing import Optional
 from typing import Union
-from urllib.parse import unquote
 from urllib.parse import urlencode
 from urllib.parse import urlparse
 
@@ -127,13 +126,13 @@ def verify_uri(
     if _uri is None:
         raise ValueError(f"Wrong uri_type: {uri_type}")
 
-    _redirect_uri = unquote(_uri)
-
-    part = urlparse(_redirect_uri)
-    if part.fragment:
+    # What's verified must be what the user agent later is sent to, so no decoding here
+    if "#" in _uri:
         raise URIError("Contains fragment")
+    if any(c.isspace() or not c.isprintable() for c in _uri):
+        raise URIError("Contains illegal characters")
 
-    (_base, _query) = split_uri(_redirect_uri)
+    (_base, _query) = split_uri(_uri)
 
     # Get the clients registered redirect uris
     client_info = endpoint_context.cdb.get(_cid)
diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 5800405..420527c 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -190,7 +190,7 @@ def split_uri(uri):
     if p.query:
         o = p._replace(query="")
         base = urlunsplit(o)
-        return base, parse_qs(p.query)
+        return base, parse_qs(p.query, keep_blank_values=True)
     else:
         base = urlunsplit(p)
         return base, ""
-- 
2.43.0


From b4c455a02b7e6154fbab39cf51d3d7c29d4681b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 29/60] fix: tokens encrypted with a newly created key must
 survive a restart

---
 src/oidcop/token/handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index c4fb238..a9b6de5 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -115,7 +115,8 @@ def _add_passwd(keyjar, conf, kid):
     if keyjar:
         _keys = keyjar.get_encrypt_key(key_type="oct", kid=kid)
         if _keys:
-            pw = as_unicode(_keys[0].k)
+            # A newly created key has no .k yet
+            pw = as_unicode(_keys[0].serialize(private=True)["k"])
             if "kwargs" in conf:
                 conf["kwargs"]["password"] = pw
             else:
-- 
2.43.0


From fa16c8989b9768bcd2907d5d5bba306ea5520a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 30/60] fix: values in form_post responses must be escaped

---
 src/oidcop/oauth2/authorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 7b14447..2485b7a 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -1,5 +1,6 @@
 import json
 import logging
+from html import escape
 from typing import List
 from typing import Optional
 from typing import Union
@@ -80,7 +81,7 @@ def inputs(form_args):
     for name, value in form_args.items():
         if name == "scope" and isinstance(value, list):
             value = " ".join(value)
-        element.append(html_field.format(name, value))
+        element.append(html_field.format(escape(str(name)), escape(str(value))))
     return "\n".join(element)
 
 
@@ -736,7 +737,7 @@ class Authorization(Endpoint):
                 if "return_type" in _args:
                     del _args["return_type"]
 
-            msg = FORM_POST.format(inputs=inputs(_args), action=return_uri)
+            msg = FORM_POST.format(inputs=inputs(_args), action=escape(return_uri))
             kwargs.update(
                 {
                     "response_msg": msg,
-- 
2.43.0


From 9d4ed25fcd46f9c1ac1a3d9e35322e9ba1e84315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:33 +0000
Subject: [PATCH 31/60] fix: form_post responses must tell issuer and client
 too

---
 src/oidcop/oauth2/authorization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 2485b7a..ee83f95 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -924,6 +924,10 @@ class Authorization(Endpoint):
         else:
             response_info["return_uri"] = redirect_uri
 
+        # Mix-Up mitigation. Must be in place before the response is turned into a form
+        response_info["response_args"]["iss"] = _context.issuer
+        response_info["response_args"]["client_id"] = request["client_id"]
+
         # Now about the response_mode. Should not be set if it's obvious
         # from the response_type. Knows about 'query', 'fragment' and
         # 'form_post'.
-- 
2.43.0


From 46dbab4e16fd6eb3a9d7fef9dd6ac4a576d66cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 32/60] fix: a single registered redirect URI may be registered
 as a string

---
 src/oidcop/oauth2/authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index ee83f95..05370f9 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -223,7 +223,7 @@ def get_uri(endpoint_context, request, uri_type):
             if len(_specs) > 1:
                 raise ParameterError(f"Missing '{uri_type}' and more than one registered")
 
-            uri = join_query(*_specs[0])
+            uri = _specs[0] if isinstance(_specs[0], str) else join_query(*_specs[0])
         else:
             raise UnknownClient(client_id)
 
-- 
2.43.0


From 5863624e3190aac816adcf8c4ad5bc262f7cb567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:53 +0000
Subject: [PATCH 33/60] fix: an OAuth2 server must be able to answer requests
 for response type token, and tell several scopes

---
 src/oidcop/oauth2/authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 05370f9..71c70bd 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -288,7 +288,7 @@ def check_unknown_scopes_policy(request_info, client_id, endpoint_context):
 
 class Authorization(Endpoint):
     request_cls = oauth2.AuthorizationRequest
-    response_cls = oauth2.AuthorizationResponse
+    response_cls = AuthorizationResponse  # Code, token or both, unlike oauth2.AuthorizationResponse
     error_cls = oauth2.AuthorizationErrorResponse
     request_format = "urlencoded"
     response_format = "urlencoded"
-- 
2.43.0


From 514464050c3264e826df76dd6e108afd2089eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:56 +0000
Subject: [PATCH 34/60] fix: pushed requests must be understood as
 authorization requests

---
 src/oidcop/oauth2/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 71c70bd..e1e80e1 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -376,7 +376,8 @@ class Authorization(Endpoint):
                         del endpoint_context.par_db[_request_uri]
                         if utc_time_sans_frac() > _par["expires_at"]:
                             raise ValueError("Got a request_uri that has expired")
-                        return _req
+                        # The pushed parameters, parsed as what they are at this endpoint
+                        return self.request_cls(**_req)
                     else:
                         raise ValueError("Got a request_uri I can not resolve")
 
-- 
2.43.0


From dacb7c804fc07a48ef5d29054be8a3d334a0b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:39 +0000
Subject: [PATCH 35/60] fix: errors after the login must be told also when no
 response mode was asked for

---
 src/oidcop/oauth2/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index e1e80e1..a282b82 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -775,7 +775,8 @@ class Authorization(Endpoint):
         response_info = self.error_response(response_info, request, error, error_description)
         if "return_uri" not in response_info:
             response_info["return_uri"] = request["redirect_uri"]
-        response_info = self.response_mode(request, **response_info)
+        if "response_mode" in request:
+            response_info = self.response_mode(request, **response_info)
         return response_info
 
     def create_authn_response(self, request: Union[dict, Message], sid: str) -> dict:
-- 
2.43.0


From 63107752d053708057a89a81b495c023a17e7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:46 +0000
Subject: [PATCH 36/60] fix: a request object without issuer must be signed by
 the client, not by the server

---
 src/oidcop/oauth2/authorization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index a282b82..139d01f 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -437,6 +437,14 @@ class Authorization(Endpoint):
             raise ValueError("The request object is for another client")
         if _object.get("iss", client_id) != client_id:
             raise ValueError("The request object was issued by another client")
+        if "iss" not in _object:
+            # Without an issuer it may have been verified with this server's own keys
+            try:
+                self.request_cls().from_jwt(
+                    _object.jwt, keyjar=endpoint_context.keyjar, issuer=client_id
+                )
+            except Exception as err:
+                raise ValueError(f"The request object is not signed by the client: {err}")
 
         _alg = (_object.jws_header or {}).get("alg", "none")
         self.allowed_request_algorithms(client_id, endpoint_context, _alg, "sign")
-- 
2.43.0


From 6a648ec95ecec3da1250f0e8d3de6a249b802704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:14 +0000
Subject: [PATCH 37/60] fix: cookie handlers configured with a signing key or
 an encryption key only in a key file must work

---
 src/oidcop/cookie_handler.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index 8103ec0..a7b9800 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -46,11 +46,9 @@ class CookieHandler:
         if keys:
             key_jar = init_key_jar(**keys)
             _keys = key_jar.get_signing_key(key_type="oct", kid="sig")
-            if _keys:
-                self.sign_key = _keys[0]
+            self.sign_key = _keys[0] if _keys else None
             _keys = key_jar.get_encrypt_key(key_type="oct", kid="enc")
-            if _keys:
-                self.enc_key = _keys[0]
+            self.enc_key = _keys[0] if _keys else None
         else:
             if sign_key:
                 if isinstance(sign_key, SYMKey):
-- 
2.43.0


From 392130adc68bdede4faa008eb77a37c07f286864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:13 +0000
Subject: [PATCH 38/60] fix: a session cookie of an unexpected form means the
 user has to log in, not a server error

---
 src/oidcop/cookie_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index a7b9800..fc453ce 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -148,7 +148,7 @@ class CookieHandler:
 
         if parts is None:
             return None
-        elif len(parts) == 3:
+        elif len(parts) == 3 and self.sign_key:
             # verify the cookie signature
             timestamp, payload, b64_mac = parts
             mac = base64.b64decode(b64_mac)
@@ -161,7 +161,7 @@ class CookieHandler:
                 return payload, timestamp
             else:
                 raise VerificationError()
-        elif len(parts) == 4:
+        elif len(parts) == 4 and self.enc_key:
             iv = base64.b64decode(parts[1])
             ciphertext = base64.b64decode(parts[2])
             tag = base64.b64decode(parts[3])
-- 
2.43.0


From e50229ad55446b463505cedc0c9715bbe641eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:13 +0000
Subject: [PATCH 39/60] fix: max_age may be given in an urlencoded request

---
 src/oidcop/oauth2/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 139d01f..8ea6f9f 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -87,7 +87,8 @@ def inputs(form_args):
 
 def max_age(request):
     verified_request = verified_claim_name("request")
-    return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
+    # It's a string if the request was received urlencoded
+    return int(request.get(verified_request, {}).get("max_age") or request.get("max_age", 0))
 
 
 def login_too_old(request, authn_event):
-- 
2.43.0


From 9bd1665517903a88f740834e4c24a3a320c7f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:13 +0000
Subject: [PATCH 40/60] fix: a return address after logout must be registered
 by the client of the session

---
 src/oidcop/oidc/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index db52c2a..c1c71f4 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -319,6 +319,9 @@ class Session(Endpoint):
             plur = False
         else:
             plur = True
+            # verify_uri would otherwise look at what the client named in the request registered
+            if request.get("client_id", _session_info["client_id"]) != _session_info["client_id"]:
+                raise ValueError("Client ID doesn't match")
             verify_uri(
                 _context,
                 request,
-- 
2.43.0


From ac56289f78d8181a9c3594f1dd7d9cc2f9736a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:13 +0000
Subject: [PATCH 41/60] fix: a client for which no logout token can be signed
 must not stop the logout

---
 src/oidcop/oidc/session.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index c1c71f4..94975c6 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -11,6 +11,7 @@ from cryptojwt import b64d
 from cryptojwt.jwe.aes import AES_GCMEncrypter
 from cryptojwt.jwe.utils import split_ctx_and_tag
 from cryptojwt.jws.exception import JWSException
+from cryptojwt.jws.exception import NoSuitableSigningKeys
 from cryptojwt.jws.jws import factory
 from cryptojwt.jws.utils import alg2keytype
 from cryptojwt.jwt import JWT
@@ -137,7 +138,12 @@ class Session(Endpoint):
 
         _jws = JWT(_context.keyjar, iss=_context.issuer, lifetime=86400, sign_alg=alg)
         _jws.with_jti = True
-        _logout_token = _jws.pack(payload=payload, recv=cinfo["client_id"])
+        try:
+            _logout_token = _jws.pack(payload=payload, recv=cinfo["client_id"])
+        except NoSuitableSigningKeys as err:
+            # Not being able to notify a client must not stop the logout
+            logger.error(f"Could not sign logout token for {cinfo['client_id']}: {err}")
+            return None
 
         return back_channel_logout_uri, _logout_token
 
-- 
2.43.0


From 2b2d5b65b66c9d5b76f18fea839b338bebe54f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:18 +0000
Subject: [PATCH 42/60] fix: let a client's claims configuration switch off
 claims by scope and restrict claims

add_claims.by_scope False for a client did not overload add_claims_by_scope True of the
release point, and restrictions in add_claims.always were lost when combined with those
of a second release point.
---
 src/oidcop/session/claims.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index 475c4f7..97d6208 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -68,22 +68,20 @@ class ClaimsInterface:
     ):
         _context = self.server_get("endpoint_context")
         add_claims_by_scope = _context.cdb[client_id].get("add_claims", {}).get("by_scope", {})
-        if add_claims_by_scope:
-            _claims_by_scope = add_claims_by_scope.get(claims_release_point, False)
-            if not _claims_by_scope and secondary_identifier:
-                _claims_by_scope = add_claims_by_scope.get(secondary_identifier, False)
+        _claims_by_scope = add_claims_by_scope.get(claims_release_point)
+        if not _claims_by_scope and secondary_identifier:
+            _claims_by_scope = add_claims_by_scope.get(secondary_identifier, _claims_by_scope)
 
-            if not _claims_by_scope:
-                _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
-        else:
+        # What the client's configuration says, True or False, overloads the general one
+        if _claims_by_scope is None:
             _claims_by_scope = module.kwargs.get("add_claims_by_scope", {})
 
         add_claims_always = _context.cdb[client_id].get("add_claims", {}).get("always", {})
-        _always_add = add_claims_always.get(claims_release_point, [])
-        if secondary_identifier:
-            _always_2 = add_claims_always.get(secondary_identifier, [])
-            # Don't touch the client's configuration
-            _always_add = list(_always_add) + list(_always_2)
+        _always_add = {}
+        for point in [secondary_identifier, claims_release_point]:
+            _add = add_claims_always.get(point, {}) if point else {}
+            # A list of claims or a dictionary with restrictions on the claims
+            _always_add.update(_add if isinstance(_add, dict) else {k: None for k in _add})
 
         return _claims_by_scope, _always_add
 
-- 
2.43.0


From ad621e3e510dc02631fa579f8719672974a9342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:12 +0000
Subject: [PATCH 43/60] fix: do not ignore the configured allowed_scopes and,
 for an AS, scopes_to_claims

---
 src/oidcop/configure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/configure.py b/src/oidcop/configure.py
index 06332d2..677e620 100755
--- a/src/oidcop/configure.py
+++ b/src/oidcop/configure.py
@@ -95,6 +95,7 @@ class EntityConfiguration(Base):
     uris = ["issuer", "base_url"]
     parameter = {
         "add_on": None,
+        "allowed_scopes": None,
         "authz": None,
         "authentication": None,
         "base_url": "",
@@ -106,6 +107,7 @@ class EntityConfiguration(Base):
         "httpc_params": {},
         "issuer": "",
         "keys": None,
+        "scopes_to_claims": None,
         "session_params": None,
         "template_dir": None,
         "token_handler_args": {},
-- 
2.43.0


From cfd2a0c5269a448d544a9a1de7e632727de89ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 44/60] fix: user claims must not override protocol claims in
 tokens and introspection responses

---
 src/oidcop/oauth2/introspection.py | 3 ++-
 src/oidcop/session/claims.py       | 7 +++++++
 src/oidcop/session/grant.py        | 3 ++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index e1e926d..cc711aa 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -6,6 +6,7 @@ from oidcmsg import oauth2
 
 from oidcop.endpoint import Endpoint
 from oidcop.exception import ToOld
+from oidcop.session.claims import PROTOCOL_CLAIMS
 from oidcop.token.exception import UnknownToken
 from oidcop.token.exception import WrongTokenClass
 
@@ -126,7 +127,7 @@ class Introspection(Endpoint):
                 _session_info["user_id"], _claims_restriction
             )
             if user_info:
-                _resp.update(user_info)
+                _resp.update({k: v for k, v in user_info.items() if k not in PROTOCOL_CLAIMS})
 
         _resp["active"] = True
 
diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index 97d6208..8b50a7a 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -12,6 +12,13 @@ logger = logging.getLogger(__name__)
 # USAGE = Literal["userinfo", "id_token", "introspection"]
 
 IGNORE = ["error", "error_description", "error_uri", "_claim_names", "_claim_sources"]
+# Names that in tokens and introspection responses are about the token, or that are arguments
+# when one is created. What is known about the user never goes by these names there.
+PROTOCOL_CLAIMS = [
+    "iss", "sub", "aud", "exp", "nbf", "iat", "jti", "sid", "nonce", "acr", "amr", "azp",
+    "auth_time", "at_hash", "c_hash", "s_hash", "active", "client_id", "scope", "token_type", "token_class",
+    "ttype", "cnf", "session_id", "usage_rules", "code", "access_token", "encrypt",
+]
 STANDARD_CLAIMS = [c for c in OpenIDSchema.c_param.keys() if c not in IGNORE]
 
 
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index a7c6f8d..bff8b17 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -10,6 +10,7 @@ from oidcmsg.oauth2 import AuthorizationRequest
 
 from oidcop.authn_event import AuthnEvent
 from oidcop.session import MintingNotAllowed
+from oidcop.session.claims import PROTOCOL_CLAIMS
 from oidcop.session.claims import claims_match
 from oidcop.session.token import AccessToken
 from oidcop.session.token import AuthorizationCode
@@ -237,7 +238,7 @@ class Grant(Item):
         )
         user_id, _, _ = endpoint_context.session_manager.decrypt_session_id(session_id)
         user_info = endpoint_context.claims_interface.get_user_claims(user_id, _claims_restriction)
-        payload.update(user_info)
+        payload.update({k: v for k, v in user_info.items() if k not in PROTOCOL_CLAIMS})
 
         # Should I add the acr value
         if self.add_acr_value(claims_release_point):
-- 
2.43.0


From 4c672ec33122a80858ad2008c0076bf24262c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 45/60] fix: keep the configured subject identifier minters
 after loading a dump

---
 src/oidcop/endpoint_context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index fd13539..761733b 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -240,6 +240,11 @@ class EndpointContext(OidcContext):
         self.dev_auth_db = None
         self.claims_interface = None
 
+    def local_load_adjustments(self, **kwargs):
+        # The subject identifier minters come from the configuration, they are not part of a dump
+        if self.session_manager is not None and self._sub_func:
+            self.session_manager.sub_func.update(self._sub_func)
+
     def new_cookie(self, name: str, max_age: Optional[int] = 0, **kwargs):
         cookie_cont = self.cookie_handler.make_cookie_content(
             name=name, value=json.dumps(kwargs), max_age=max_age
-- 
2.43.0


From 02efb7b1cc597d3f7714c00139519e13674f442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:56 +0000
Subject: [PATCH 46/60] fix: request URIs whose fragment contains '#' made
 registration fail and leave a client behind

---
 src/oidcop/oidc/registration.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 7f12f12..77dcb23 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -209,7 +209,7 @@ class Registration(Endpoint):
                     return err
                 if _up.fragment:
                     # store base and fragment
-                    _uris.append(uri.split("#"))
+                    _uris.append(uri.split("#", 1))
                 else:
                     _uris.append([uri, ""])
             _cinfo["request_uris"] = _uris
@@ -452,17 +452,17 @@ class Registration(Endpoint):
                 # What I've decided on is not for the client to change
                 ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"] + list(_cinfo),
             )
+            if isinstance(_cinfo, ResponseMessage):
+                self._forget_registration(client_id, _rat, _previous)
+                return _cinfo
+
+            args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
+
+            comb_uri(args)
+            response = self.response_cls(**args)
         except Exception:
             self._forget_registration(client_id, _rat, _previous)
             raise
-        if isinstance(_cinfo, ResponseMessage):
-            self._forget_registration(client_id, _rat, _previous)
-            return _cinfo
-
-        args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])
-
-        comb_uri(args)
-        response = self.response_cls(**args)
 
         # Add the client_secret as a symmetric key to the key jar
         if client_secret:
-- 
2.43.0


From 19230e7cc7ee1bb5570a6872c8cb689746875aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:37 +0000
Subject: [PATCH 47/60] fix: a sector identifier document must be a list of
 redirect URIs

---
 src/oidcop/oidc/registration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 77dcb23..7ed70a9 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -344,6 +344,9 @@ class Registration(Endpoint):
         except ValueError:
             raise InvalidSectorIdentifier("Error deserializing sector_identifier_uri content")
 
+        if not isinstance(si_redirects, list):
+            raise InvalidSectorIdentifier("sector_identifier_uri content is not a list")
+
         if "redirect_uris" in request:
             logger.debug("redirect_uris: %s", request["redirect_uris"])
             for uri in request["redirect_uris"]:
-- 
2.43.0


From 948dc2a4a481d434a48cd6b17d29866a498a8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:39 +0000
Subject: [PATCH 48/60] fix: a client must not choose the expiry of a secret
 that does not expire

---
 src/oidcop/oidc/registration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 7ed70a9..51c6420 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -453,7 +453,8 @@ class Registration(Endpoint):
                 request,
                 client_id,
                 # What I've decided on is not for the client to change
-                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri"] + list(_cinfo),
+                ignore=["redirect_uris", "policy_uri", "logo_uri", "tos_uri", "client_secret_expires_at"]
+                + list(_cinfo),
             )
             if isinstance(_cinfo, ResponseMessage):
                 self._forget_registration(client_id, _rat, _previous)
-- 
2.43.0


From 6decd941574abc1fc79ec294e6b822e914a16053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:27 +0000
Subject: [PATCH 49/60] fix: redirect URIs with a custom scheme must match when
 they have a query or an empty authority

---
 src/oidcop/oidc/registration.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 51c6420..94933e3 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -283,13 +283,12 @@ class Registration(Endpoint):
                 must_https = False
 
         for uri in registration_request["redirect_uris"]:
-            _custom = False
             p = urlparse(uri)
             if p.fragment:
                 raise InvalidRedirectURIError("redirect_uri contains fragment")
             if client_type == "native":
                 if p.scheme not in ["http", "https"]:  # Custom scheme
-                    _custom = True
+                    pass
                 elif p.scheme == "http" and p.hostname in ["localhost", "127.0.0.1"]:
                     pass
                 else:
@@ -308,14 +307,11 @@ class Registration(Endpoint):
                 # Custom scheme
                 raise InvalidRedirectURIError("Custom redirect_uri not allowed for web client")
 
-            if _custom:  # Can not verify a custom scheme
-                verified_redirect_uris.append((uri, {}))
+            base, query = split_uri(uri)
+            if query:
+                verified_redirect_uris.append((base, query))
             else:
-                base, query = split_uri(uri)
-                if query:
-                    verified_redirect_uris.append((base, query))
-                else:
-                    verified_redirect_uris.append((base, {}))
+                verified_redirect_uris.append((base, {}))
 
         return verified_redirect_uris
 
-- 
2.43.0


From 276c7b98a511dc1513723ff476937dbbcaf8e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:27 +0000
Subject: [PATCH 50/60] fix: sign ID tokens with the client's secret when an
 HMAC algorithm is registered

---
 src/oidcop/token/id_token.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index e8555ef..fcab127 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -257,7 +257,11 @@ class IDToken(Token):
 
         _jwt = JWT(_context.keyjar, iss=_context.issuer, lifetime=lifetime, **alg_dict)
 
-        return _jwt.pack(_payload, recv=client_id)
+        # HMAC based signatures are made with the client's secret
+        _sign_alg = alg_dict["sign_alg"] or ""
+        _key_owner = client_id if _sign_alg.startswith("HS") else ""
+
+        return _jwt.pack(_payload, recv=client_id, issuer_id=_key_owner)
 
     def __call__(
         self,
-- 
2.43.0


From 25cddda3f4714746117f40b4268c5efa4178b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:51 +0000
Subject: [PATCH 51/60] fix: claims of a DPoP proof must not replace the header
 its signature was verified with

---
 src/oidcop/oauth2/add_on/dpop.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index dcc6b23..ee372f7 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -71,11 +71,14 @@ class DPoPProof(Message):
                 _pub_key = key_from_jwk_dict(_jwt.headers["jwk"])
                 _pub_key.deserialize()
                 _info = _jws.verify_compact(keys=[_pub_key], sigalg=_jwt.headers["alg"])
-                for k, v in _jwt.headers.items():
-                    self[k] = v
-
+                # The header is what the signature was verified with, claims must not replace it
                 for k, v in _info.items():
-                    self[k] = v
+                    if k not in self.header_params:
+                        self[k] = v
+
+                for k, v in _jwt.headers.items():
+                    if k not in self.body_params:
+                        self[k] = v
             else:
                 raise Exception()
 
-- 
2.43.0


From e9be34efa73d4ad48d8fb6dd0c5199ee5945a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:28 +0000
Subject: [PATCH 52/60] fix: bind access tokens issued for a code at the OAuth2
 token endpoint to the DPoP key

---
 src/oidcop/oauth2/token.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index bfee6df..f55035b 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -129,6 +129,15 @@ class AccessTokenHelper(TokenEndpointHelper):
             grant_types_supported = _context.provider_info["grant_types_supported"]
         grant = _session_info["grant"]
 
+        token_type = "Bearer"
+
+        # Is DPOP supported
+        if "dpop_signing_alg_values_supported" in _context.provider_info:
+            _dpop_jkt = req.get("dpop_jkt")
+            if _dpop_jkt:
+                grant.extra["dpop_jkt"] = _dpop_jkt
+                token_type = "DPoP"
+
         _based_on = grant.get_token(_access_code)
         _supports_minting = _based_on.usage_rules.get("supports_minting", [])
 
@@ -146,7 +155,7 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         issue_refresh = kwargs.get("issue_refresh", False)
         _response = {
-            "token_type": "Bearer",
+            "token_type": token_type,
             "scope": grant.scope,
         }
 
@@ -158,6 +167,7 @@ class AccessTokenHelper(TokenEndpointHelper):
                     session_id=_session_info["session_id"],
                     client_id=_session_info["client_id"],
                     based_on=_based_on,
+                    token_type=token_type,
                 )
             except MintingNotAllowed as err:
                 logger.warning(err)
-- 
2.43.0


From ce2360368de050b5ac0d2ddc27897e4e9a57516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:16 +0000
Subject: [PATCH 53/60] fix: a grant based on an existing login must follow the
 client's usage rules too

---
 src/oidcop/oauth2/authorization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 8ea6f9f..ded5116 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -710,6 +710,7 @@ class Authorization(Endpoint):
                             auth_req=request,
                             user_id=user,
                             client_id=request["client_id"],
+                            token_usage_rules=_context.authz.usage_rules(request["client_id"]),
                             **self._subject_args(request["client_id"]),
                         )
 
-- 
2.43.0


From 7142faa77c237087f93dadcfa05523e357e25873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:05 +0000
Subject: [PATCH 54/60] fix: user and client identifiers with ';' ran into the
 dividers of session keys

---
 src/oidcop/session/database.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index d165712..05b7008 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -5,6 +5,7 @@ import logging
 from typing import List
 from typing import Optional
 from typing import Union
+from urllib.parse import unquote
 
 from oidcmsg.impexp import ImpExp
 from oidcmsg.item import DLDict
@@ -82,17 +83,18 @@ class Database(ImpExp):
                 cid_info.add_subordinate(grant_id)
                 self.db[cid_key] = cid_info
 
-        userinfo = self.db.get(uid, UserSessionInfo())
+        uid_key = self.session_key(uid)
+        userinfo = self.db.get(uid_key, UserSessionInfo())
         if client_id is None:
-            self.db[uid] = value
+            self.db[uid_key] = value
         if client_id and client_id not in userinfo.subordinate:
             userinfo.add_subordinate(client_id)
-            self.db[uid] = userinfo
+            self.db[uid_key] = userinfo
 
     def get(self, path: List[str]) -> Union[SessionInfo, Grant]:
         uid, client_id, grant_id = self._eval_path(path)
         try:
-            user_info = self.db[uid]
+            user_info = self.db[self.session_key(uid)]
         except KeyError:
             raise KeyError("No such UserID")
         except TypeError:
@@ -127,18 +129,19 @@ class Database(ImpExp):
 
     def delete(self, path: List[str]):
         uid, client_id, grant_id = self._eval_path(path)
+        uid_key = self.session_key(uid)
 
-        if uid not in self.db:
+        if uid_key not in self.db:
             return
         elif not client_id:
             # with the user goes everything that belongs to the user
-            for _cid in list(getattr(self.db[uid], "subordinate", [])):
+            for _cid in list(getattr(self.db[uid_key], "subordinate", [])):
                 self.delete([uid, _cid])
-            if uid in self.db:
-                self.db.__delitem__(uid)
+            if uid_key in self.db:
+                self.db.__delitem__(uid_key)
             return
 
-        _user_info = self.db[uid]
+        _user_info = self.db[uid_key]
         skey_uid_client = self.session_key(uid, client_id)
         skey_uid_client_grant = self.session_key(uid, client_id, grant_id or "")
 
@@ -166,9 +169,9 @@ class Database(ImpExp):
                 self.db[skey_uid_client] = _client_info
 
         if len(_user_info.subordinate) == 0:
-            self.db.__delitem__(uid)
+            self.db.__delitem__(uid_key)
         else:
-            self.db[uid] = _user_info
+            self.db[uid_key] = _user_info
 
     def update(self, path: List[str], new_info: dict):
         _info = self.get(path)
@@ -177,10 +180,11 @@ class Database(ImpExp):
         self.set(path, _info)
 
     def session_key(self, *args):
-        return DIVIDER.join(args)
+        # An identifier may itself contain what is used as divider
+        return DIVIDER.join([a.replace("%", "%25").replace(";", "%3B") for a in args])
 
     def unpack_session_key(self, key):
-        return key.split(DIVIDER)
+        return [unquote(p) for p in key.split(DIVIDER)]
 
     def encrypted_session_id(self, *args) -> str:
         rnd = rndstr(32)
-- 
2.43.0


From f5963b6d0323fc2afc400644b0f2ff342c1caa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:06 +0000
Subject: [PATCH 55/60] fix: a string no token handler can parse is an unknown
 token

Introspection (and everything else that looks a token up) failed with
whatever exception JWT parsing raised for altered, unsigned or truncated
tokens, instead of treating the string as no token.
---
 src/oidcop/token/handler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index a9b6de5..607ed81 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -3,16 +3,15 @@ import os
 from typing import Optional
 import warnings
 
-from cryptojwt.exception import Invalid
 from cryptojwt.key_jar import init_key_jar
 from cryptojwt.utils import as_unicode
 from oidcmsg.impexp import ImpExp
 from oidcmsg.item import DLDict
 
+from oidcop.exception import ToOld
 from oidcop.token import DefaultToken
 from oidcop.token import Token
 from oidcop.token import UnknownToken
-from oidcop.token.exception import TokenException
 from oidcop.util import importer
 
 __author__ = "Roland Hedberg"
@@ -71,8 +70,11 @@ class TokenHandler(ImpExp):
         for typ in order:
             try:
                 res = self.handler[typ].info(token)
-            except (KeyError, TokenException, Invalid, AttributeError):
-                pass
+            except ToOld:
+                raise
+            except Exception as err:
+                # Whatever made it fail, this is not a token of this handler's
+                logger.debug(f"Not a {typ}: {err!r}")
             else:
                 return self.handler[typ], res
 
-- 
2.43.0


From 946dd42b5eaac2d888c784ebbbed5b655dc6b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:07 +0000
Subject: [PATCH 56/60] fix: defaults of the pushed authorization endpoint were
 announced as the server's

It inherits the OAuth2 authorization endpoint's default capabilities: with
PAR enabled the metadata announced no scopes and, when listed before the
authorization endpoint, other response types than it was configured with.
---
 src/oidcop/oauth2/pushed_authorization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index dfb8ca5..a51a3d3 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -15,6 +15,8 @@ class PushedAuthorization(Authorization):
     response_placement = "body"
     response_format = "json"
     name = "pushed_authorization"
+    # What is supported is for the authorization endpoint to announce
+    default_capabilities = {}
 
     def __init__(self, server_get, **kwargs):
         Authorization.__init__(self, server_get, **kwargs)
-- 
2.43.0


From b95e3ad52342ca5f6da65b93a7d8043d63bbe42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:45 +0000
Subject: [PATCH 57/60] fix: a request for the ACR claim without value, or with
 one nobody offers, crashed the authorization

---
 src/oidcop/oauth2/authorization.py     | 4 ++++
 src/oidcop/user_authn/authn_context.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index ded5116..9ce0bd3 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -620,6 +620,10 @@ class Authorization(Endpoint):
         """
 
         res = self.pick_authn_method(request, redirect_uri, acr, **kwargs)
+        if "error" in res:
+            if "state" in request:
+                res["state"] = request["state"]
+            return res
 
         authn = res["method"]
         authn_class_ref = res["acr"]
diff --git a/src/oidcop/user_authn/authn_context.py b/src/oidcop/user_authn/authn_context.py
index 8aa94df..d02dad7 100755
--- a/src/oidcop/user_authn/authn_context.py
+++ b/src/oidcop/user_authn/authn_context.py
@@ -114,6 +114,8 @@ def _acr_claim(request):
         _id_token_claim = _claims.get("id_token")
         if _id_token_claim:
             _acr = _id_token_claim.get("acr")
+            if not _acr:  # Not asked for or nothing said about it
+                return None
             if "value" in _acr:
                 return [_acr["value"]]
             elif "values" in _acr:
-- 
2.43.0


From 63d3b1358eec5614a19e02baf441cfc94877ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:44 +0000
Subject: [PATCH 58/60] fix: with a form based authentication method the
 endpoint context could not be dumped as JSON

---
 src/oidcop/endpoint_context.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/oidcop/endpoint_context.py b/src/oidcop/endpoint_context.py
index 761733b..22c7ac8 100755
--- a/src/oidcop/endpoint_context.py
+++ b/src/oidcop/endpoint_context.py
@@ -97,15 +97,12 @@ class EndpointContext(OidcContext):
         "conf": {},
         # "cookie_handler": None,
         "cwd": "",
-        "endpoint_to_authn_method": {},
         "httpc_params": {},
         # "idtoken": IDToken,
         "issuer": "",
         "jti_db": {},
         "jwks_uri": "",
         "keyjar": KeyJar,
-        "login_hint_lookup": None,
-        "login_hint2acrs": {},
         "par_db": {},
         "provider_info": {},
         "registration_access_token": {},
-- 
2.43.0


From 9f943eea9a947f7f8699c319aea32dbf369c56ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:03 +0000
Subject: [PATCH 59/60] fix: a session cookie decided who somebody who gave his
 own credentials was

---
 src/oidcop/user_authn/user.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/user_authn/user.py b/src/oidcop/user_authn/user.py
index 4a77006..aa337d3 100755
--- a/src/oidcop/user_authn/user.py
+++ b/src/oidcop/user_authn/user.py
@@ -123,6 +123,11 @@ class UserAuthnMethod(object):
                     return _info
         return {}
 
+    def session_of(self, user, cookie: List[dict], client_id: str) -> dict:
+        """What the cookie says, provided it's about a session the user has."""
+        _info = self.cookie_info(cookie, client_id)
+        return _info if _info.get("uid") == user else {}
+
 
 def create_signed_jwt(issuer, keyjar, sign_alg="RS256", **kwargs):
     signer = JWT(keyjar, iss=issuer, sign_alg=sign_alg)
@@ -231,7 +236,7 @@ class BasicAuthn(UserAuthnMethod):
         self.verify_password(user, pwd.decode())
         res = {"uid": user}
         if cookie:
-            res.update(self.cookie_info(cookie, client_id))
+            res.update(self.session_of(res["uid"], cookie, client_id))
         return res, utc_time_sans_frac()
 
 
@@ -264,7 +269,7 @@ class SymKeyAuthn(UserAuthnMethod):
 
         res = {"uid": user}
         if cookie:
-            res.update(self.cookie_info(cookie, client_id))
+            res.update(self.session_of(res["uid"], cookie, client_id))
 
         return res, utc_time_sans_frac()
 
@@ -290,7 +295,7 @@ class NoAuthn(UserAuthnMethod):
 
         res = {"uid": self.user}
         if cookie:
-            res.update(self.cookie_info(cookie, client_id))
+            res.update(self.session_of(res["uid"], cookie, client_id))
 
         return res, utc_time_sans_frac()
 
-- 
2.43.0


From 4e75db220c5414b9e9fdc24428e4fb1123b7ce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:36 +0000
Subject: [PATCH 60/60] fix: userinfo could not be signed with an HMAC
 algorithm

---
 src/oidcop/oidc/userinfo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index e6b3935..3e0dd29 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -94,7 +94,10 @@ class UserInfo(Endpoint):
                 enc_alg=enc_alg,
             )
 
-            resp = _jwt.pack(response_args, recv=client_id)
+            # HMAC keys are shared with the client, all other keys are mine
+            _issuer_id = client_id if sign_alg.startswith("HS") else ""
+
+            resp = _jwt.pack(response_args, issuer_id=_issuer_id, recv=client_id)
             content_type = "application/jwt"
         else:
             if isinstance(response_args, dict):
-- 
2.43.0

