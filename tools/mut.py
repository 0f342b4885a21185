#!/usr/bin/env python3
"""Development aid: tools/mut.py FILE OLD NEW CHECK... applies one textual
change in a scratch copy of /repo and runs checks and the tests against it."""
import os, shutil, subprocess, sys, tempfile
f, old, new, ids = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix="mut-")
try:
    r = d + "/repo"
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    s = open(r + "/" + f).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    if s.count(old) != 1:
        sys.exit("pattern occurs %d times" % s.count(old))
    open(r + "/" + f, "w").write(s.replace(old, new))
    t = subprocess.run(". /opt/vp/env.sh; go build ./... && go vet ./... >/dev/null 2>&1; go test ./... 2>&1 | grep -v '^ok\\|no test files'", shell=True, cwd=r, capture_output=True, text=True)
    print("tests:", "PASS" if not t.stdout.strip() and not t.stderr.strip() else (t.stdout + t.stderr)[-600:])
    for i in ids:
        p = subprocess.run(["/verif/check", i], env=dict(os.environ, VP_REPO=r, VP_NOEV="1"), capture_output=True, text=True)
        print(i, "rc=%d" % p.returncode, "CAUGHT" if p.returncode == 1 else "MISSED" if p.returncode == 0 else p.stdout[-500:] + p.stderr[-500:])
        if p.returncode == 1 and os.environ.get("V"):
            print(p.stdout[:1500])
finally:
    shutil.rmtree(d)
