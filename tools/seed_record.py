"""seed_record.py ID RC: check output on stdin -> tools/seed_results.json"""
import json, os, sys
d, rc = sys.argv[1], int(sys.argv[2])
o = sys.stdin.read().split("\n")
has = lambda p: any(l.startswith(p) for l in o)
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed_results.json")
r = json.load(open(f)) if os.path.exists(f) else {}
by = (["verifier"] if has("failed obligation") else []) + (["driver"] if has("failing input") else [])
r[d] = " and ".join(by) if rc == 1 and has("VIOLATION") else "**missed**"
json.dump(r, open(f, "w"), indent=1, sort_keys=True)
