"""C07-C11: registry lookups and registry documents."""
import random
from . import gen_lookup as g


def _n(c, q, t):
    return q if c.tier == "quick" else t


def _lookup(c, mc, gen, tr, kind, quick_cfg=None, thorough_cfg=None):
    cfg = thorough_cfg if c.tier == "thorough" and thorough_cfg else quick_cfg
    cases = c.gen_cases(mc, cfg=cfg)
    c.replay_cases(cases, kind, label=mc)
    for r in range(_n(c, 4, 16)):
        rng = random.Random("%s/%d/%d" % (mc, c.seed, r))
        c.validate_traces(tr, gen(rng, _n(c, 250, 600)), kind, label="%s-%s" % (tr, mc))


def C07(c):
    _lookup(c, "MCDns", g.dns, "TrLookup", "textlookup", thorough_cfg="MCDnsT")


def C08(c):
    _lookup(c, "MCNet", g.net, "TrNet", "iplookup")


def C09(c):
    _lookup(c, "MCAsn", g.asn, "TrLookup", "textlookup")


def C10(c):
    _lookup(c, "MCTag", g.tag, "TrLookup", "textlookup")


def C11(c):
    _lookup(c, "MCFile", g.regfile, "TrFile", "regfile")


def C36(c):
    """One registry, many lookups: in every order, and at the same time."""
    q = c.tier == "quick"
    ins = c.gen_cases("RegistryUse", cfg=None if q else "RegistryUseT")
    c.validate_traces("TrReg", ins, "reguse", label="RegistryUse")
    for r in range(2 if q else 12):
        rng = random.Random("reguse/%d/%d" % (c.seed, r))
        ins = []
        for gen in (g.dns, g.asn, g.tag, g.net):
            for x in gen(rng, 60):
                n = len(x["queries"])
                if not n:
                    continue
                if rng.random() < .5:
                    ins.append(dict(x, order=[rng.randint(1, n) for _ in range(2 * n)], conc=0))
                else:
                    ins.append(dict(x, order=[], conc=rng.choice([2, 4, 8])))
        seq = [x for x in ins if x["conc"] == 0]
        con = [x for x in ins if x["conc"]]
        c.validate_traces("TrReg", seq, "reguse", label="TrReg-random-orders")
        c.validate_traces("TrReg", con, "reguse", label="TrReg-concurrent", race=True)
