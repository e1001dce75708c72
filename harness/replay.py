#!/opt/venv/bin/python
"""replay.py FILE [-v]  - runs the behaviour in a replay file (evidence/replay_<id>.json) again on the code in /repo.
exit 1 if it diverges from the specification, 0 if not."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vclock
import json, logging
import engine, importlib

NAMES = {"core": "jobs_core", "clientauth": "jobs_clientauth"}


def main():
    d = json.load(open(sys.argv[1]))
    if "-v" in sys.argv:
        logging.basicConfig(level=logging.INFO)
    mod = importlib.import_module(NAMES.get(d["adapter"], "jobs_" + d["adapter"]))
    ad = mod.FACTORY(d["walk"]["cfg"], seed=(d.get("params") or {}).get("seed", 0), params=d.get("params"))
    for i, st in enumerate(d["walk"]["steps"]):
        print("%2d %s" % (i, json.dumps(st["l"])))
    n, divs = engine.run_walk(ad, d["walk"])
    for x in divs:
        print("DIVERGES at step %s: %s %s" % (x.get("at"), ",".join(x["tags"]), x["msg"]))
    print("steps run: %d" % n)
    return 1 if divs else 0


if __name__ == "__main__":
    sys.exit(main())
