"""Append a "fixed" entry to known_findings.jsonl: addfixed.py <property> <id> <commit> <what>"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
prop, fid, commit, what = sys.argv[1:]
with open(p, "a") as fh:
    fh.write(json.dumps({"property": prop, "id": fid, "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (prop, commit, what)}) + "\n")
