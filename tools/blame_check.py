"""blame_check.py: do the planted bugs change lines of the original repository only?"""
import glob, os, re, subprocess
for p in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/../seeded/*/patch.diff")):
    f, out = None, []
    for ln in open(p):
        if ln.startswith("--- a/"):
            f = ln[6:].strip()
        m = re.match(r"@@ -(\d+)", ln)
        if m:
            k = int(m.group(1))
        elif f and not ln.startswith(("---", "+++", "diff", "index")):
            if ln.startswith("-"):
                b = subprocess.run(["git", "-C", "/repo", "blame", "-L", "%d,%d" % (k, k), f], capture_output=True, text=True).stdout
                out.append(b.startswith("^"))
                k += 1
            elif ln.startswith(" "):
                k += 1
    print(os.path.basename(os.path.dirname(p)), "original" if out and all(out) else "MIXED %s" % out)
