#!/usr/bin/env python3
"""Development aid: tools/tryseeds.py [ID...] runs, for every planted bug, the check
of the property it breaks (and any given as ID:CHECK,CHECK) on a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile, time
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for a in ids:
    i, _, extra = a.partition(":")
    meta = json.load(open("/verif/seeded/%s/meta.json" % i))
    d = tempfile.mkdtemp(prefix="try-")
    try:
        r = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "apply", "/verif/seeded/%s/patch.diff" % i], check=True)
        for c in extra.split(",") if extra else [meta["property"]]:
            t = time.time()
            p = subprocess.run(["/verif/check", c], env=dict(os.environ, VP_REPO=r, VP_NOEV="1"), capture_output=True, text=True)
            print(i, c, {0: "MISSED", 1: "caught"}.get(p.returncode, "rc=%d %s" % (p.returncode, p.stdout[-300:] + p.stderr[-300:])), "%.0fs" % (time.time() - t), flush=True)
    finally:
        shutil.rmtree(d)
