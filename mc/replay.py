import importlib
import json
import sys

from mc.core import execute

if __name__ == "__main__":
    r = json.load(open(sys.argv[1]))
    m = importlib.import_module(r["module"])
    if hasattr(m, "prepare"):
        m.prepare("quick", 1)
    if hasattr(m, "setup_worker"):
        m.setup_worker()
    v = execute(m, r["spec"])
    print(json.dumps(r["spec"], indent=1))
    if v[0] == "ok":
        print("holds" if not v[1].findings else v[1].findings)
        sys.exit(1 if v[1].findings else 0)
    print(v[1])
    sys.exit(1 if v[0] == "violation" else 2)
