#!/usr/bin/env python3
"""For each planted bug: apply it to /repo, run its property's check, undo it; prints who was caught.
  tools/catch.py [id prefix ...]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ids = sorted(d for d in os.listdir(S) if not sys.argv[1:] or any(d.startswith(a) for a in sys.argv[1:]))
for i in ids:
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")], check=True)
    t = time.time()
    try:
        p = subprocess.run(["python3", os.path.join(V, "check.py"), meta["property"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_TIER=os.environ.get("VERIF_TIER", "quick"), VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-34s rc=%d %s %.0fs  %s" % (i, p.returncode, "CAUGHT" if p.returncode == 1 and v else "missed", time.time() - t, (v or [""])[0][:140]), flush=True)
