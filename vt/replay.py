"""Re-run a recorded violation on the unpatched code:  python3-vt vt/replay.py FILE"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import explore, reg
d = json.load(open(sys.argv[1]))
s = explore.Server()
r = s.run(reg.load_all()[d["obligation"]], d["inputs"])
s.close()
print(json.dumps(r, indent=1))
sys.exit(1 if r["exc"] or any(not c[1] for c in r["checks"]) else 0)
