"""C17: Hijri dates."""
from vlib import *
import absgen, eastern, relgen

STARTS = json.load(open(os.path.join(VERIF, "spec", "ummalqura.json")))["starts"]


def length(y, m):
    i = (y - 1356) * 12 + m - 1
    return STARTS[i + 1] - STARTS[i]


def case(r, d, m, y, digits=4):
    inside = 1356 <= y <= 1500
    g = relgen.rnd_instant(r)
    cfg, z = eastern.setting(r, digits == 4 and inside)
    order = r.choice(eastern.ORDERS)
    w = eastern.numbers(r, order, d, m, y, digits, "ar")
    text, t, w, off = eastern.finish(r, w, cfg, z, g, True)
    return (eastern.request(r, "hijri", text, g, cfg, z, order),
            dict(c=dict(d=d, m=m, y=y, yl=digits), t=t, w=w, off=off, rtp=cfg["rtp"]))


def rnd(r):
    k = r.random()
    y, m = r.randint(1356, 1500), r.randint(1, 12)
    if k < 0.1:
        y = r.choice([1356, 1357, 1499, 1500])
    if k < 0.08:
        y, m, d = r.choice([1355, 1501, r.randint(1000, 1355), r.randint(1501, 2100)]), r.randint(1, 12), r.randint(1, 29)
        return case(r, d, m, y)
    if k < 0.5:
        d = r.choice([1, 2, 29, 30, length(y, m)])
    else:
        d = r.randint(1, 30)
    if r.random() < 0.2:
        return case(r, d, m, r.choice([r.randint(0, 99), 89, 90, 99, 0]), 2)
    return case(r, d, m, y)


def check(rep):
    drv = build_driver()
    rep.model("MCHijri")
    r = rng("c17")
    cases = [rnd(r) for _ in range(12000 if rep.thorough else 8000)]
    for y in range(1356, 1501):                   # the ends of every month, and every day of the calendar
        for m in range(1, 13):
            for d in (range(1, 31) if rep.thorough else (1, r.randint(2, 28), 29, 30)):
                cases.append(case(r, d, m, y))
    judge(rep, drv, "TraceHijri", cases)
