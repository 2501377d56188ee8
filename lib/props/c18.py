"""C18: Jalali dates."""
from vlib import *
import absgen, eastern, relgen

LEAPS = (1, 5, 9, 13, 17, 22, 26, 30)


def case(r, d, m, y, digits=4):
    """digits 0: no year."""
    g = relgen.rnd_instant(r, *((1900, 2090) if r.random() < 0.5 else (2009, 2036)))
    cfg, z = eastern.setting(r, digits == 4)
    rec = dict(d=d, m=m, dw="", mw="", y=y, yl=digits)
    lead, year = "", "%04d" % y if digits == 4 else "%02d" % y
    if r.random() < 0.6:
        order = r.choice(["DMY", "DMY", "MDY", "YMD", "DYM"] if digits else ["DMY", "MDY"])
        rec.update(m=-1, mw=r.choice([x for x in eastern.MONTHS if eastern.PERSIAN["months"][x] == m]))
        if r.random() < 0.5:
            rec.update(d=-1, dw=r.choice([x for x in eastern.DAYS if eastern.PERSIAN["days"][x] == d]))
        else:
            dd = r.choice(["%d", "%02d"]) % d
        p = dict(D=rec["dw"] or dd, M=rec["mw"], Y=year)
        text = r.choice([" ", " ", "  "]).join(p[c] for c in order if c != "Y" or digits)
        if order[0] == "D" and r.random() < 0.5:
            lead = r.choice(eastern.WEEKDAYS) + r.choice([" ", "، ", ", "])
    else:
        order = r.choice(eastern.ORDERS) if digits else r.choice(["DMY", "MDY"])
        text = eastern.numbers(r, order, d, m, y, digits, "fa")
    text, t, w, off = eastern.finish(r, text, cfg, z, g, False, lead)
    n = relgen.now_in(g, z)
    return (eastern.request(r, "jalali", text, g, cfg, z, order),
            dict(c=rec, ref=dict(y=n[0], mo=n[1], d=n[2]), t=t, w=w, off=off, rtp=cfg["rtp"]))


def rnd(r):
    y, m = r.randint(1244, 1472), r.randint(1, 12)
    k = r.random()
    if k < 0.1:
        y = r.choice([1244, 1245, 1471, 1472])
    d = r.choice([r.randint(1, 31), 1, 29, 30, 31])
    if k < 0.2:
        m, d = 12, r.choice([29, 30])
    if k > 0.8:
        return case(r, d, m, 0, 0)
    if k > 0.65:
        return case(r, d, m, r.choice([r.randint(0, 99), 60, 61, 99, 0]), 2)
    return case(r, d, m, y)


def check(rep):
    drv = build_driver()
    rep.model("MCJalali")
    r = rng("c18")
    cases = [rnd(r) for _ in range(14000 if rep.thorough else 9000)]
    for y in range(1244, 1473):                   # the ends of every month, and every day of the calendar
        for m in range(1, 13):
            for d in (range(1, 32) if rep.thorough else (1, r.choice([29, 30, 31]))):
                cases.append(case(r, d, m, y))
    judge(rep, drv, "TraceJalali", cases)
