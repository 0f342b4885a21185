#!/usr/bin/env python3
"""Development aid: tools/mkseed.py DEFS.py [ID...] builds /verif/seeded/<id> from
definitions (edits + a demonstration test), keeping one only if it compiles, the
repository's tests pass with it and the demonstration tells it apart.

DEFS.py holds SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)],
pkg, test, race=False)]."""
import json, os, runpy, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package %(pkg)s of the working directory.
set -u
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME="$t/home" XDG_CACHE_HOME= ; mkdir "$HOME"
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOPATH=${GOPATH:-/root/go}
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD/%(pkg)s" "$d" > "$t/overlay.json"
timeout 250 go test -overlay "$t/overlay.json" %(flags)s-vet=off -count=1 -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)

def main():
    defs = runpy.run_path(sys.argv[1])["SEEDS"]
    want = set(sys.argv[2:])
    for s in defs:
        if want and s["id"] not in want:
            continue
        out = "/verif/seeded/" + s["id"]
        d = tempfile.mkdtemp(prefix="seed-")
        try:
            r = d + "/repo"
            subprocess.run(["cp", "-a", "/repo", r], check=True)
            sd = d + "/seed"
            os.mkdir(sd)
            open(sd + "/demo_test.go", "w").write(s["test"].lstrip("\n"))
            pkg = s.get("pkg", ".")
            open(sd + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, flags="-race " if s.get("race") else ""))
            os.chmod(sd + "/demo.sh", 0o755)
            p = sh("bash %s/demo.sh" % sd, r)
            if p.returncode != 0:
                print(s["id"], "DEMO FAILS UNPATCHED", (p.stdout + p.stderr)[-1500:]); continue
            bad = False
            for f, old, new in s["edits"]:
                t = open(r + "/" + f).read()
                if t.count(old) != s.get("count", 1):
                    print(s["id"], f, "pattern occurs", t.count(old)); bad = True; break
                open(r + "/" + f, "w").write(t.replace(old, new))
            if bad: continue
            g = sh(". /opt/vp/env.sh; gofmt -l . ; go build ./... && go vet ./...", r)
            if g.returncode or g.stdout.strip():
                print(s["id"], "BUILD/FMT", (g.stdout + g.stderr)[-800:])
                if g.returncode: continue
            t = sh(". /opt/vp/env.sh; go test -count=1 ./... 2>&1 | grep -v '^ok\\|no test files'", r)
            if t.stdout.strip():
                print(s["id"], "TESTS FAIL", t.stdout[-800:]); continue
            p = sh("bash %s/demo.sh" % sd, r)
            if p.returncode == 0:
                print(s["id"], "DEMO PASSES PATCHED"); continue
            if "--- FAIL" not in p.stdout and "DATA RACE" not in p.stdout and "panic" not in p.stdout and "fatal error" not in p.stdout:
                print(s["id"], "ODD DEMO FAILURE", (p.stdout + p.stderr)[-800:])
            diff = sh("git diff", r).stdout
            open(sd + "/patch.diff", "w").write(diff)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                      open(sd + "/meta.json", "w"), indent=1)
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(sd, out)
            print(s["id"], "ok")
        finally:
            shutil.rmtree(d)
main()
