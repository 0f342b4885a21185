"""Development aid (VP_SENS=1): how much of what is observed does a trace
specification look at? Corrupts recorded observations one place at a time and
reports the kinds of places where no corruption was rejected."""
import copy, os, random, re


def places(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from places(x[k], path + (k,))
    elif isinstance(x, list):
        if x:
            yield path, "drop"
            yield path, "swap"
        for i, y in enumerate(x):
            yield from places(y, path + (i,))
    else:
        yield path, "leaf"


def corrupt(obs, path, how):
    o = copy.deepcopy(obs)
    if not path:
        return None
    p = o
    for k in path[:-1]:
        p = p[k]
    v = p[path[-1]]
    if how == "drop":
        p[path[-1]] = v[:-1]
    elif how == "swap":
        if len(v) < 2 or v[0] == v[-1]:
            return None
        p[path[-1]] = [v[-1]] + v[1:-1] + [v[0]]
    elif isinstance(v, bool):
        p[path[-1]] = not v
    elif isinstance(v, int):
        p[path[-1]] = v + 1
    elif isinstance(v, str):
        p[path[-1]] = v + "q"
    else:
        return None
    return o


def report(c, module, recs, cfg, label, env, timeout):
    rng = random.Random(5)
    by = {}
    for r in rng.sample(recs, min(len(recs), 300)):
        for path, how in places(r["obs"]):
            name = ["*" if isinstance(k, int) else k for k in path]
            if len(name) > 4:
                name = name[:3] + ["..."] + name[-1:]
            by.setdefault((".".join(name), how), []).append((r, path, how))
    cases, keys = [], []
    for k in sorted(k for k in by if not (module == "TrPrint" and k[0].startswith("obj"))):
        for r, path, how in rng.sample(by[k], min(len(by[k]), 12)):
            o = corrupt(r["obs"], path, how)
            if o is not None:
                cases.append({"in": r["in"], "obs": o})
                keys.append(k)
    ok, bad = {}, {}
    # a corruption may make TLC fail: bisect
    def judge(lo, hi):
        try:
            rej = {i for i, _ in c.rejected(module, cases[lo:hi], cfg, None, env, timeout)}
            return {lo + i for i in rej}
        except Exception:
            if hi - lo <= max(1, len(cases) // 64):
                return set(range(lo, hi))
            m = (lo + hi) // 2
            return judge(lo, m) | judge(m, hi)
    rej = judge(0, len(cases)) if cases else set()
    for i, k in enumerate(keys):
        (bad if i in rej else ok).setdefault(k, []).append(i)
    for k in sorted(set(keys)):
        n, m = len(ok.get(k, [])), len(bad.get(k, []))
        if n:
            print("SENS %s/%s %s %s: %d of %d accepted" % (c.prop, label, k[0], k[1], n, n + m), flush=True)
