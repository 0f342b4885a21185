"""Shows the runs rejected in out/<ID>/violation-*.json (CLI checks)."""
import glob, json, sys
for f in sorted(glob.glob("/verif/out/%s/violation-*.json" % sys.argv[1])):
    d = json.load(open(f))["data"]
    sp = d["specification"]
    sp = json.loads(sp) if isinstance(sp, str) else sp
    for s in sp[:2]:
        i = s["run"] - 1
        r, o = d["in"]["runs"][i], dict(d["observed"]["runs"][i])
        print("ARGS", r["args"], "sandbox" if r["sandbox"] else "", r["servers"], r["now"], r["xdg"], r["pre"])
        print("  HOSTS", [(h["host"], h["out"], h["cert"]) for h in r["hosts"] if h["out"] not in ("boot",) or h["cert"] != "good"][:6])
        print("  SPEC", json.dumps(s["spec"])[:400])
        for q in o.get("reqs") or []:
            q["url"] = bytes(q["url"]).decode("latin1")
        for k in ("out", "body", "obj"):
            o.pop(k, None)
        print("  OBS", json.dumps(o)[:700])
