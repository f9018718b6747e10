#!/usr/bin/env python3
"""replay.py FILE [-v]: rebuilds from /repo's working tree and replays one recorded schedule and fault trace."""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
t = open(sys.argv[1]).read()
m = re.search(r"# config (\S+) plain (\d) files (\S+)", t)
exe = B.build(m.group(1), m.group(3).split(","), plain=m.group(2) == "1")
r = subprocess.run([exe, "replay", "--file", sys.argv[1]] + (["--verbose", "1"] if "-v" in sys.argv else []), stdout=subprocess.PIPE, text=True)
d = json.loads(r.stdout)
for l in d.get("log", []): print("  ", l)
print("violation: %s: %s" % (d["cls"], d["msg"]) if d["cls"] else "no violation")
sys.exit(1 if d["cls"] else 0)
