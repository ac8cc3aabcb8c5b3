"""mkseed.py ID PROP FILE <<spec : make /verif/seeded/ID from a spec on stdin (python dict: edits=[(file, old, new)], needs, breaks, demo)."""
import json, os, subprocess, sys
spec = {}
exec(sys.stdin.read(), spec)
sid, prop = spec["id"], spec["prop"]
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", sid)
os.makedirs(d, exist_ok=True)
wt = "/tmp/seedwt"
subprocess.run(["rm", "-rf", "/tmp/seedwt"], check=True)
subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), wt], check=True)
for f, old, new in spec["edits"]:
    p = os.path.join(wt, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
assert diff
open(f"{d}/patch.diff", "w").write(diff)
open(f"{d}/demo.py", "w").write(spec["demo"].lstrip("\n"))
open(f"{d}/demo.sh", "w").write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"\n')
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
subprocess.run(["rm", "-rf", "/tmp/seedwt"], check=True)
