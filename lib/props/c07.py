"""C07: a date written in parts is completed exactly as documented."""
from vlib import *
import absgen


def reference(r, g, **kw):
    g = dict(g, src=r.randrange(3), dom=r.randrange(3), moy=r.randrange(3), strict=False, req=[], rtp=r.random() < 0.5,
             shift=0)
    g.update(kw)
    return g


def request(c, g, text, order, off=0):
    return dict(op="parse", text=text, cfg=dict(
        langs=["en"], now=absgen.nowlist(g), nowzone=dict(name="UTC" if off == 0 else "X", off=off), order=order,
        src=g["src"], dom=g["dom"], moy=g["moy"], strict=g["strict"], req=g["req"], rtp=g["rtp"]))


def build(r, n, **kw):
    cases = []
    while len(cases) < n:
        c, g, text, order = absgen.rnd_case(r)
        g = reference(r, g, **kw)
        off = r.choice([0, 0, 0, 3600, -18000, 20700, 50400, -43200])
        cases.append((c, g, text, request(c, g, text, order, off), off))
    return cases


def judge(rep, drv, cases, module="TraceAbsolute", cfg=None):
    reqs = [x[3] for x in cases]
    obs = run_seq(drv, reqs)
    recs = [dict(c=c, g=g, o=o["dt"], off=off, id=i) for i, ((c, g, t, q, off), o) in enumerate(zip(cases, obs))]
    for i, o in enumerate(obs):
        if o["panic"] or o["hang"]:
            rep.violation("no answer: " + cases[i][2], dict(request=reqs[i], answer=o))
    for rec, why in rep.conform(module, recs, cfg=cfg):
        i = rec["id"]
        same, again = confirm(drv, reqs[i], obs[i])
        rep.violation("%r: %s" % (cases[i][2], why), dict(request=reqs[i], parts=rec["c"], observed=rec["o"],
                                                           spec=why, reproduced=same))
    rep.sample(*[dict(text=cases[i][2], request=reqs[i]["cfg"], observed=obs[i]["dt"]) for i in (0, len(cases) // 2)])
    return obs


def check(rep):
    r = rng("c07")
    drv = build_driver()
    rep.model("MCCalendar")
    judge(rep, drv, build(r, 60000 if rep.thorough else 12000))
