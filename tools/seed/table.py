#!/usr/bin/env python3
"""table.py DIR: the planted bugs and the jobs that report them (from det.sh's ID.det files), as a Markdown table."""
import glob, json, os, re, sys
D = sys.argv[1] if len(sys.argv) > 1 else "/tmp/seed"
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
print("| bug | property | what it breaks | reported by the jobs |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*")):
    i = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    known = {"S06": {"fields-hosts", "fields-services"}}.get(m["property"], set())
    try:
        t = open("%s/%s.det" % (D, i)).read()
        jobs = [j for j in re.findall(r"^%s/([^:\s]+): violated" % m["property"], t, re.M) if j not in known]
    except OSError:
        jobs = ["?"]
    print("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), ", ".join(jobs) or "none"))
