"""C09: strict parsing and required parts."""
from vlib import *
import absgen
from props import c07

MONTHS = dict(
    de=["Januar", "Februar", "März", "April", "Mai", "Juni", "Juli", "August", "September", "Oktober", "November", "Dezember"],
    fr=["janvier", "février", "mars", "avril", "mai", "juin", "juillet", "août", "septembre", "octobre", "novembre", "décembre"],
    es=["enero", "febrero", "marzo", "abril", "mayo", "junio", "julio", "agosto", "septiembre", "octubre", "noviembre", "diciembre"],
    ru=["января", "февраля", "марта", "апреля", "мая", "июня", "июля", "августа", "сентября", "октября", "ноября", "декабря"])


def demand(r):
    k = r.random()
    if k < 0.35:
        return True, []
    req = [r.choice(["day", "month", "year"]) for _ in range(r.randint(1, 3))]
    return k > 0.9, req


def parts_of(c):
    return [p for p, v in (("day", c["d"]), ("month", c["m"]), ("year", c["yl"])) if v]


def words(r):
    """In words and numbers, English, with everything the generator of dates in parts knows."""
    c, g, text, order = absgen.rnd_case(r)
    g = c07.reference(r, g)
    q = c07.request(c, g, text, order)
    q["ptypes"] = r.choice([[4], [4], [2, 4], []])
    return q, parts_of(c)


def foreign(r):
    l = r.choice(sorted(MONTHS))
    c = absgen.parts(m=r.randint(1, 12))
    M = MONTHS[l][c["m"] - 1]
    k = r.choice(["dmy", "dm", "my", "m"])
    d, y = r.randint(1, 28), r.randint(1950, 2060)
    t = dict(dmy="%d %s %d" % (d, M, y), dm="%d %s" % (d, M), my="%s %d" % (M, y), m=M)[k]
    has = dict(dmy=["day", "month", "year"], dm=["day", "month"], my=["month", "year"], m=["month"])[k]
    g = c07.reference(r, absgen.rnd_now(r))
    q = c07.request(c, g, t, "DMY")
    q["cfg"]["langs"] = r.choice([[l], [l], ["en", l], [l, "en"], []])
    if not q["cfg"]["langs"] and k != "dmy":
        q["cfg"]["langs"] = [l]
    q["ptypes"] = [4] if k != "dmy" else r.choice([[4], []])
    return q, has


def numbers(r):
    y, m = r.randint(1950, 2060), r.randint(1, 12)
    d = r.randint(1, absgen.dim(y, m))
    sep = r.choice("-/.")
    order = r.choice(["MDY", "DMY", "YMD"])
    v = dict(D="%02d" % d, M="%02d" % m, Y="%d" % y)
    k = r.random()
    if k < 0.6:
        t, has = sep.join(v[x] for x in order), ["day", "month", "year"]
    elif k < 0.8:
        t, has = r.choice(["%02d/%d" % (m, y), "%d-%02d" % (y, m)]), ["month", "year"]
        if order == "DMY":   # the first of two numbers is a day in this order
            has = ["day", "year"]
    else:
        t, has = "%d" % y, ["year"]
    if r.random() < 0.3:
        tt, txt = absgen.rnd_time(r)
        if ":" in txt:
            t += " " + txt
    g = c07.reference(r, absgen.rnd_now(r))
    q = c07.request({}, g, t, order)
    q["ptypes"] = r.choice([[4], []])
    return q, has


def nospace(r):
    y, m = r.randint(1950, 2060), r.randint(1, 12)
    d = r.randint(1, absgen.dim(y, m))
    order = r.choice(["DMY", "YMD", "YDM", "DYM", "MYD", "MDY"])
    v = dict(D="%02d" % d, M="%02d" % m, Y="%d" % y)
    t = "".join(v[x] for x in order)
    has = ["day", "month", "year"]
    k = r.random()
    if k < 0.3:
        t += "%02d%02d" % (r.randint(0, 23), r.randint(0, 59))
    elif k < 0.4:
        t += "%02d:%02d" % (r.randint(0, 23), r.randint(0, 59))
    elif k < 0.7:   # short digits say nothing that can be relied on
        t = r.choice(["%d" % y, "%02d%02d" % (m, d), "%02d%02d%02d" % (y % 100, m, d), "%02d:%02d" % (r.randint(0, 23), r.randint(0, 59)),
                      "%02d:%02d:%02d" % (r.randint(10, 23), r.randint(10, 59), r.randint(10, 59)), "%d%d" % (y, m)])
        has = []
    g = c07.reference(r, absgen.rnd_now(r))
    q = c07.request({}, g, t, order)
    q["ptypes"] = [5]
    return q, has


LAYOUTS = [("%(d)02d-%(m)02d-%(y)d", "02-01-2006", "dmy"), ("%(y)d/%(m)02d/%(d)02d", "2006/01/02", "dmy"),
           ("%(m)02d.%(y)d", "01.2006", "my"), ("%(d)02d %(M)s", "02 January", "dm"), ("%(M)s %(y)d", "January 2006", "my"),
           ("%(y)d", "2006", "y"), ("%(d)d %(y)d", "2 2006", "dy"), ("%(H)02d:%(I)02d", "15:04", ""), ("%(M)s", "January", "m"),
           ("%(M)s %(d)d %(y)d %(H)02d:%(I)02d", "January 2 2006 15:04", "dmy"), ("%(d)02d%(m)02d", "0201", "dm"),
           ("%(b)s. %(d)d, %(y2)02d", "Jan. 2, 06", "dmy"), ("day %(d)d", "day 2", "d"), ("%(y)d-%(m)d", "2006-1", "my")]


def formats(r):
    y, m = r.randint(1950, 2060), r.randint(1, 12)
    d = r.randint(1, absgen.dim(y, m)) if r.random() < 0.7 else r.randint(1, 28)
    M = absgen.MON[m - 1]
    pat, lay, has = r.choice(LAYOUTS)
    t = pat % dict(d=d, m=m, y=y, y2=y % 100, M=M, b=M[:3], H=r.randint(0, 23), I=r.randint(0, 59))
    g = c07.reference(r, absgen.rnd_now(r))
    q = c07.request({}, g, t, "DMY")
    q["ptypes"] = [3]
    q["formats"] = [lay]
    if r.random() < 0.3:
        q["formats"] = r.choice([["2006-01-02T15", lay], [lay, "02.01.06 04"]])
    return q, [p for p, k in (("day", "d"), ("month", "m"), ("year", "y")) if k in has]


def build(r, n):
    out = []
    while len(out) < n:
        f = r.choice([words, words, words, foreign, numbers, nospace, nospace, formats, formats])
        q, has = f(r)
        strict, req = demand(r)
        q["cfg"].update(strict=False, req=[])
        q2 = dict(q, cfg=dict(q["cfg"], strict=strict, req=[r.choice([str.lower, str.upper, str.title])(x) for x in req]))
        out.append((q, q2, has, strict, req))
    return out


def check(rep):
    drv = build_driver()
    rep.model("MCDemand")
    cases = build(rng("c09"), 40000 if rep.thorough else 9000)
    free = run_seq(drv, [c[0] for c in cases])
    keys = [k for k in EMPTY_DT]
    judge(rep, drv, "TraceDemand", [
        (q2, dict(f={k: f["dt"][k] for k in keys}, has=has, strict=strict, req=req))
        for (q, q2, has, strict, req), f in zip(cases, free)], key=lambda o: dict(o={k: o["dt"][k] for k in keys}))
    rep.extra["readable without a demand"] = sum(f["dt"]["some"] for f in free)
