"""Runs TLC on modules in /verif/spec and hands back what the model printed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TLCError(Exception):
    pass


def write_cfg(path, spec=None, init=None, nxt=None, constants=None, invariants=(), properties=(), constraints=(),
              action_constraints=(), view=None, postcondition=None, deadlock=False):
    out = []
    if spec:
        out.append("SPECIFICATION %s" % spec)
    else:
        out.append("INIT %s\nNEXT %s" % (init, nxt))
    for k, v in (constants or {}).items():
        if isinstance(v, str) and v.startswith("<-"):
            out.append("CONSTANT %s <- %s" % (k, v[2:].strip()))
        else:
            out.append("CONSTANT %s = %s" % (k, tla(v)))
    for n, xs in (("INVARIANT", invariants), ("PROPERTY", properties), ("CONSTRAINT", constraints),
                  ("ACTION_CONSTRAINT", action_constraints)):
        for x in xs:
            out.append("%s %s" % (n, x))
    if view:
        out.append("VIEW %s" % view)
    if postcondition:
        out.append("POSTCONDITION %s" % postcondition)
    out.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


class Raw(str):
    """a TLA+ expression for a constant"""


def tla(v):
    """python value -> TLA+ constant expression as allowed in a .cfg"""
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset, list)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise ValueError(v)


def run(module, cfg, workers=4, simulate=None, seed=None, timeout=600, extra=(), heap="6g", extra_defs="", files=None,
        coverage=False):
    """cfg: kwargs of write_cfg.
    extra_defs: TLA+ text; if given a wrapper module is created that EXTENDS `module`.
    returns {"lines": [...printed json objects...], "stats": {...}, "ok": bool, "out": text}"""
    d = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(c)
        root = module
        if extra_defs:
            root = "Run_" + module
            with open(os.path.join(d, root + ".tla"), "w") as f:
                f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (root, module, extra_defs))
        write_cfg(os.path.join(d, root + ".cfg"), **cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
               "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:"
               + ":".join(_jars()), "tlc2.TLC", "-config", root + ".cfg", "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-fp", "7"]
        if simulate:
            num, depth = simulate
            cmd += ["-simulate", "num=%d" % num, "-depth", str(depth), "-workers", "1"]
        else:
            cmd += ["-workers", str(workers)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra) + [root + ".tla"]
        t0 = time.monotonic()
        with open(os.path.join(d, "out.txt"), "wb") as fo:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise TLCError("TLC timed out on %s after %ss" % (module, timeout))
        wall = time.monotonic() - t0
        lines, rest = [], []
        with open(os.path.join(d, "out.txt"), encoding="utf-8", errors="replace") as f:
            for ln in f:
                if ln.startswith('"{') or ln.startswith('"['):
                    try:
                        lines.append(json.loads(json.loads(ln)))
                        continue
                    except ValueError:
                        pass
                rest.append(ln)
        out = "".join(rest)
        st = {"wall": round(wall, 1)}
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            st["generated"], st["states"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            st["generated"] = int(m.group(1))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            st["depth"] = int(m.group(1))
        ok = rc == 0
        return {"lines": lines, "stats": st, "ok": ok, "rc": rc, "out": out}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _jars():
    base = "/opt/veriftools/tla"
    return [os.path.join(base, f) for f in sorted(os.listdir(base)) if f.endswith(".jar")]


def must(res, what=""):
    if not res["ok"]:
        raise TLCError("TLC failed on %s (rc %s):\n%s" % (what, res["rc"], res["out"][-3000:]))
    return res
