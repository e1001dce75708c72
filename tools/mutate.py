#!/usr/bin/env python3
"""mutate.py generate OUT.json N SEED        - pick N mutations of /repo/src/oidcop
   mutate.py test IN.json OUT.json -j J       - keep the ones the test suite does not notice
Used for finding gaps in the checks (see DESIGN.md); not part of any check."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = "/repo/src/oidcop/"
FILES = """session/database.py session/grant.py session/token.py session/manager.py session/info.py session/claims.py authz/__init__.py
authn_event.py client_authn.py construct.py cookie_handler.py endpoint.py endpoint_context.py oauth2/authorization.py oauth2/introspection.py
oauth2/pushed_authorization.py oauth2/token.py oauth2/add_on/dpop.py oauth2/add_on/extra_args.py oidc/add_on/pkce.py oidc/add_on/custom_scopes.py
oidc/authorization.py oidc/read_registration.py oidc/registration.py oidc/session.py oidc/token.py oidc/userinfo.py scopes.py token/__init__.py
token/handler.py token/id_token.py token/jwt_token.py user_authn/user.py user_authn/authn_context.py user_info/__init__.py util.py server.py
login_hint.py""".split()
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}


def mutations(path):
    src = open(SRC + path).read()
    lines = src.splitlines(keepends=True)
    tree = ast.parse(src)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln))
    # ast columns are utf-8 byte offsets; the files are ASCII

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(n, new, kind):
        a, b = span(n)
        if src[a:b] != new:
            out.append({"file": path, "a": a, "b": b, "old": src[a:b], "new": new, "kind": kind, "line": n.lineno})

    def text(n):
        a, b = span(n)
        return src[a:b]

    def logs(n):
        return text(n).lower().startswith(("logger", "log."))
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for n in ast.walk(fn):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                add(n.test, "not (%s)" % text(n.test), "negate")
                if isinstance(n, ast.If):
                    add(n.test, "False", "never")
                    add(n.test, "True", "always")
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add(n, "%s %s %s" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "compare")
            elif isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(%s)" % op.join("(%s)" % text(v) for v in n.values), "boolop")
                for k in range(len(n.values)):
                    rest = [text(v) for j, v in enumerate(n.values) if j != k]
                    add(n, "(%s)" % ((" and " if op == " or " else " or ").join(rest)), "drop")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, "(%s)" % text(n.operand), "unnot")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not logs(n):
                add(n, "pass", "delcall")
            elif isinstance(n, ast.Raise):
                add(n, "pass", "noraise")
            elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                add(n, "pass", "delassign")
            elif isinstance(n, ast.Assign) and isinstance(n.value, (ast.Call, ast.Attribute, ast.Subscript)) :
                add(n.value, "None", "none")
            elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                add(n.value, "None", "retnone")
            elif isinstance(n, ast.Constant) and n.value in (True, False) and isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                add(n, str(n.value + 1), "const")
            elif isinstance(n, ast.Continue):
                add(n, "break", "break")
            elif isinstance(n, ast.Break):
                add(n, "continue", "continue")
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
                add(n, text(n.left), "binop")
    seen, res = set(), []
    for m in out:
        k = (m["a"], m["b"], m["new"])
        if k not in seen:
            seen.add(k)
            res.append(m)
    return res


def apply(m, repo):
    p = repo + "/src/oidcop/" + m["file"]
    s = open(SRC + m["file"]).read()
    assert s[m["a"]:m["b"]] == m["old"]
    t = s[:m["a"]] + m["new"] + s[m["b"]:]
    try:
        ast.parse(t)
    except SyntaxError:
        return False
    open(p, "w").write(t)
    return True


def main():
    if sys.argv[1] == "generate":
        rnd = random.Random(int(sys.argv[4]))
        ms = [m for f in FILES for m in mutations(f)]
        print(len(ms), "possible")
        rnd.shuffle(ms)
        json.dump(ms[:int(sys.argv[3])], open(sys.argv[2], "w"), indent=0)
        return
    ms = json.load(open(sys.argv[2]))
    j = int(sys.argv[sys.argv.index("-j") + 1])
    outf = open(sys.argv[3], "a")
    import queue
    q = queue.Queue()
    dirs = []
    for _ in range(j):
        w = tempfile.mkdtemp(prefix="mut_")
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        q.put(w + "/repo")
        dirs.append(w)

    def one(m):
        repo = q.get()
        try:
            if not apply(m, repo):
                return
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, timeout=300,
                                   env=dict(os.environ, PYTHONPATH=repo + "/src", PYTHONHASHSEED="0", TZ="UTC", PYTHONDONTWRITEBYTECODE="1"),
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
            except subprocess.TimeoutExpired:
                r = -1
            m["tests"] = r
            outf.write(json.dumps(m) + "\n")
            outf.flush()
        finally:
            shutil.copy(SRC + m["file"], repo + "/src/oidcop/" + m["file"])
            q.put(repo)
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(one, ms))
    for w in dirs:
        shutil.rmtree(w)


if __name__ == "__main__":
    main()
