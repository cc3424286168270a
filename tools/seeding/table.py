"""table.py RESULTS...: design/matrix.txt from the outcomes that matrix.sh (or try.sh) recorded and the bugs' meta.json."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
got = {}
old = V + "/design/matrix.txt"
if os.path.exists(old):
    for l in open(old):
        r = l.rstrip("\n").split("\t"); got[r[0]] = r[3]
for f in sys.argv[1:]:
    for l in open(f):
        r = l.rstrip("\n").split("\t"); got[r[0]] = r[1]
with open(old, "w") as o:
    for i in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        o.write("\t".join([i, m["property"], m["needs"].replace("\t", " ").replace("\n", " "), got.get(i, "not run")]) + "\n")
