"""Drives real cookie handlers along behaviours of spec/Cookie.tla."""
import base64, json, random
import opsys
from opsys import CLOCK
from engine import Div
from oidcop.cookie_handler import CookieHandler
from cryptojwt.jwk.hmac import SYMKey

TEXT = {"q": "\"'\\", "U": "å☃\U0001f600", "J": json.dumps({"sid": "a::b|c", "state": "%7C"})}
TS = {1: 1600000000, 2: 1600000001}
SIGN = {"own": "ghsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch", "alien": "xhsNKDDLshZTPn974nOsIGhedULrsqnsGoBFBLwUKuJhE2ch"}
ENC = {"own": b"NXi6HD473d_YS4exVRn7z9z23mGmvU64", "alien": b"xXi6HD473d_YS4exVRn7z9z23mGmvU64"}
NAME = {"session": "oidc_op", "register": "oidc_op_reg", "session_management": "oidc_op_sman"}


def keys_conf(mode, who):
    defs = []
    if "sign" in mode:
        defs.append({"type": "OCT", "use": ["sig"], "kid": "sig"})
    if "enc" in mode:
        defs.append({"type": "OCT", "use": ["enc"], "kid": "enc"})
    return defs


def make_handler(mode, style, who, rnd):
    if style == "keys":
        return CookieHandler(keys={"private_path": "%s/cookie_%s_%s_%d.json" % (opsys.SCRATCH, mode, who, opsys.os.getpid()),
                                   "key_defs": keys_conf(mode, who), "read_only": False}, name=dict(NAME))
    kw = {}
    if "sign" in mode:
        kw["sign_key"] = SIGN[who] if style == "text" else SYMKey(k=SIGN[who])
        if rnd.random() < .3:
            kw["sign_alg"] = rnd.choice(["SHA384", "SHA512"])
    if "enc" in mode:
        k = base64.urlsafe_b64encode(ENC[who][:rnd.choice([16, 24, 32])]).decode().rstrip("=")
        kw["enc_key"] = k if style == "text" else SYMKey(k=k)
    return CookieHandler(name=dict(NAME), **kw)


class CookieSystem:
    def __init__(self, cfg, seed=0, params=None):
        self.cfg, self.seed = cfg, seed
        self.rnd = random.Random(seed)
        self.stats = {}
        CLOCK.reset()
        r = self.rnd.random()
        self.h = {}
        for who in ("own", "alien"):
            self.h[who] = make_handler(cfg["mode"], cfg["style"], who, random.Random(r))

    def params(self):
        return {"seed": self.seed}

    def worn(self):
        return False

    def begin(self, walk):
        self.cookies = []       # (who, value, type, timestamp, name, string)
        self.strings = set()

    def end(self):
        return []

    def step(self, l, o):
        return getattr(self, "do_" + l["a"])(l) or []

    def text(self, toks):
        return "".join(TEXT.get(t, t) for t in toks)

    def do_make(self, l):
        v, t, ts = self.text(l["v"]), self.text(l["t"]), TS[l["ts"]]
        name = NAME[l["n"]]
        h = self.h[l["k"]]
        kw = {}
        if self.rnd.random() < .3:
            kw["max_age"] = self.rnd.choice([100, 3600])
        if self.rnd.random() < .7:
            kw["timestamp"] = ts if self.rnd.random() < .5 else str(ts)
        else:
            save = CLOCK.now
            CLOCK.now = ts
        val = [v] if self.rnd.random() < .1 else v
        try:
            c = h.make_cookie_content(name, val, t, **kw)
        finally:
            if "timestamp" not in kw:
                CLOCK.now = save
        if c["name"] != name:
            return [Div({"C18"}, "made cookie %s, asked for %s" % (c["name"], name))]
        s = c["value"]
        self.cookies.append((l["k"], v, t, str(ts), name, s))
        if v or t:
            bad = [ch for ch in s if ord(ch) < 0x21 or ord(ch) > 0x7e or ch in '",;\\']
            if bad:
                return [Div({"C18"}, "cookie value %r contains %r, which a cookie can not carry" % (s, bad[0]))]
        if l["k"] == "own":
            return self.check(name, s, len(self.cookies) - 1, "must", "as made")

    def parse(self, name, s, more=()):
        try:
            r = self.h["own"].parse_cookie(name, [{"name": name, "value": s}])
        except Exception as e:
            return None, repr(e)
        return (r[0] if r else None), r

    def check(self, name, s, i, res, what):
        who, v, t, ts, n, _ = self.cookies[i]
        if res == "must" and not v and not t:
            res = "may"          # made to be deleted
        if s in [c[5] for c in self.cookies if c[0] == "own" and c[4] == name]:
            # altered into one of the genuine ones
            pass
        got, raw = self.parse(name, s)
        if got is None:
            if res == "must":
                return [Div({"C18"}, "cookie of value %r and type %r (%s) not accepted: %s" % (v, t, what, raw))]
            return
        g = (got["value"], got["type"], str(got["timestamp"]))
        if res in ("must", "may") and g == (v, t, ts):
            return
        if res == "no" and any(c[0] == "own" and (c[1], c[2], c[3]) == g and c[5] == s for c in self.cookies):
            return
        return [Div({"C18"}, "%s (%s): %r gives value %r, type %r, timestamp %r; it was made from %r, %r, %r" % (
            what, res, s, g[0], g[1], g[2], v, t, ts))]

    def mutate(self, x, how):
        r = self.rnd
        if how == "none":
            return x
        if how == "empty":
            return ""
        if how == "trunc":
            return x[:-r.randint(1, max(1, min(4, len(x) - 1)))] if len(x) > 1 else ""
        if how == "head":
            return x[1:]
        if how == "ext":
            return x + r.choice(["A", "AAAA", "=", "0", "%00", "::", ":", "/"])
        if how == "pre":
            return r.choice(["A", "0", "%00", "::", ":", " "]) + x
        if how == "flip":
            if not x:
                return "A"
            i = r.randrange(len(x))
            c = x[i]
            alt = "0123456789" if x.isdigit() else "ABCDEFGHabcdefgh0123456789+/%:"
            n = r.choice([k for k in alt if k != c])
            return x[:i] + n + x[i + 1:]
        if how == "zero":
            return base64.b64encode(b"\0" * 32).decode()
        raise ValueError(how)

    def do_present(self, l):
        fields = [self.cookies[f["src"] - 1][5].split("|") for f in l["f"]]
        k = len(l["f"])
        parts = []
        for i, f in enumerate(l["f"]):
            x = fields[i]
            parts.append(self.mutate(x[i] if i < len(x) else "", f["mut"]))
        sh = l["shape"]
        r = self.rnd
        if sh == "swap":
            i, j = r.sample(range(k), 2)
            parts[i], parts[j] = parts[j], parts[i]
        elif sh == "drop":
            parts.pop(r.randrange(k))
        elif sh == "dup":
            i = r.randrange(k)
            parts.insert(r.randrange(k + 1), parts[i])
        elif sh == "cut":
            s = "|".join(parts)
            parts = s[:r.randrange(len(s))].split("|") if s else [""]
        elif sh == "join":
            # a delimiter moves or disappears
            i = r.randrange(k - 1)
            x = parts[i] + parts[i + 1]
            if r.random() < .3 or len(x) < 2:
                parts[i:i + 2] = [x]
            else:
                c = r.randrange(1, len(x))
                parts[i:i + 2] = [x[:c], x[c:]]
        elif sh == "lead":
            parts.insert(r.randrange(k + 1), r.choice(["", "A", "AAAA", "1600000000"]))
        s = "|".join(parts)
        name = NAME[l["n"]]
        res = l["res"]
        mine = [c for c in self.cookies if c[0] == "own" and c[5] == s]
        if mine and res != "must":
            if mine[0][4] != name:
                # the right cookie under another name of this server: it is not altered
                got, raw = self.parse(name, s)
                if got and (got["value"], got["type"], str(got["timestamp"])) != mine[0][1:4]:
                    return [Div({"C18"}, "%r gives %s" % (s, got))]
                return
            return self.check(name, s, self.cookies.index(mine[0]), "must", "altered into a genuine one")
        if res == "must":
            # looked for under another name nothing is found
            other = NAME["session_management"]
            try:
                r2 = self.h["own"].parse_cookie(other, [{"name": name, "value": s}])
            except Exception as e:
                r2 = None
            if r2:
                return [Div({"C18"}, "a cookie named %s is taken for %s" % (name, other))]
        if res == "no":
            # never different content: what comes out may only be the content of one genuine cookie it is made from
            got, raw = self.parse(name, s)
            g = got and (got["value"], got["type"], str(got["timestamp"]))
            if not got or any(self.cookies[i - 1][0] == "own" and self.cookies[i - 1][1:4] == g for i in {f["src"] for f in l["f"]}):
                return
        return self.check(name, s, l["src"] - 1, res, "%s/%s" % (sh, [f["mut"] for f in l["f"]]))


MUTS = {"none", "flip", "trunc", "head", "ext", "pre", "empty", "zero"}
