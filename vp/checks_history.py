"""C33: decoding over time and concurrently."""
import random
from . import core
from .checks_boot import scripts_of
from .gen_docs import Docs


def C33(c):
    q = c.tier == "quick"
    # the interleaved machine: every schedule of two (three) decodes and their owners' actions
    inv = "INVARIANTS Pure Private PlansRight\nPROPERTY PlansStable"
    base = "CONSTANTS Procs = {%s} Docs = {1, 2, 3} MaxOps = %d\nINIT Init\nNEXT Next\nVIEW View\n"
    r = core.tlc_ok("DecodeHistory", cfg_text=base % ("1, 2" if q else "1, 2, 3", 3 if q else 4) + inv)
    c.add_tlc("DecodeHistory-interleaved", r)
    # one process: all histories, as scripts
    n = 4 if q else 5
    r = core.tlc_ok("DecodeHistory", workers=1, cfg_text=(base % ("1", n)).replace("VIEW View\n", "") + inv + "\nINVARIANT Emit", keep=True)
    c.add_tlc("DecodeHistory-histories", r)
    hist = scripts_of(r.out)
    schema = c.gen_cases("MCPrint", env={"ODD": "no"}, name="schema")[0]["schema"]
    rng = random.Random("history/%d" % c.seed)
    g = Docs(rng, schema, wrong=.08, unknown=.25, fill=.4)
    k = Docs(rng, schema, wrong=.02, unknown=.2, fill=.2)
    if len(hist) > 900 and q:
        rng.shuffle(hist)
        hist = hist[:900]

    def triple():
        d = [g.doc(1), k.whoisish(), g.doc(2)]
        if rng.random() < .3:
            d[1] = d[0]
        return d
    ins = [{"docs": triple(), "ops": h} for h in hist]
    for _ in range(60 if q else 1500):
        h, m = [], 0
        for _ in range(rng.randint(6, 16)):
            o = rng.choice("dddmp")
            if o == "d":
                m += 1
                h.append(["d", rng.randint(1, 3)])
            elif m and not (o == "p" and ["m", (x := rng.randint(1, m))] in h):
                h.append([o, x if o == "p" else rng.randint(1, m)])
        ins.append({"docs": triple(), "ops": h})
    # a fresh process per slice, so that first uses of types come in many orders
    c.validate_traces("TrHistory", ins, "history", label="histories", procs=24)
    # at the same time, under the race detector: fresh processes, so that the first uses race too
    conc = []
    for _ in range(16 if q else 160):
        docs = [g.doc(rng.choice([0, 1, 1, 2])) for _ in range(6)]
        conc.append({"docs": docs, "n": 8, "rounds": 3})
    obs = []
    for i in range(0, len(conc), 2):
        obs += core.run_harness(conc[i:i + 2], "concurrent", race=True, timeout=300, extra_env={"GORACE": "exitcode=66 halt_on_error=1"})
    c.validate_traces("TrHistory", conc, "concurrent", label="concurrent", obs=obs)
    c.note(race_detector="on")
    c.assumptions.append("data races are those the Go race detector sees in the executed schedules")
