"""C12: time zones."""
from vlib import *
import datetime
import absgen, relgen, zonegen

EMPTY_W = dict(ed=0, es=0, ns=0)


def wall(g):
    return relgen.instant(g)


def abs_text(r, g):
    """A complete date and time for the wall clock g, in several spellings."""
    M = absgen.MON[g["mo"] - 1]
    s, ns = g["s"], 0
    if r.random() < 0.5:
        s = 0
        h12, ap = (g["h"] % 12) or 12, ("AM" if g["h"] < 12 else "PM")
        t = r.choice(["%02d:%02d" % (g["h"], g["mi"]), "%d:%02d %s" % (h12, g["mi"], ap)])
    else:
        t = "%02d:%02d:%02d" % (g["h"], g["mi"], s)
        if r.random() < 0.2:
            ns = r.choice([500000000, 1000, 999999000])
            t += ".%06d" % (ns // 1000)
    d = r.choice(["%d %s %d" % (g["d"], M, g["y"]), "%s %d, %d" % (M, g["d"], g["y"]), "%04d-%02d-%02d" % (g["y"], g["mo"], g["d"]),
                  "%d %s %d" % (g["d"], M[:3], g["y"]), "%02d/%02d/%d" % (g["mo"], g["d"], g["y"])])
    return d, t, dict(g, s=s, ns=ns)


def defzone(r):
    if r.random() < 0.35:
        return None
    return relgen.rnd_zone(r, 0.7)


def rec_def(z):
    return dict(some=z is not None, rule=z["rule"] if z else "fixed", std=z["std"] if z else 0)


def one_abs(r):
    g = relgen.rnd_instant(r)
    d, t, g = abs_text(r, g)
    dz = defzone(r)
    x, suffix = dict(zonegen.NOZONE), ""
    k = r.random()
    iso = d[4:5] == "-"
    if k < 0.3:
        x, name = zonegen.rnd_name(r)
        text = r.choice(["%s %s %s" % (d, t, name), "%s %s (%s)" % (d, t, name), "%s %s %s" % (t, name, d), "%s, %s %s" % (d, t, name)])
        if iso and name == "Z":
            text = "%sT%sZ" % (d, t) if " " not in t else text
    elif k < 0.65:
        x, name, bare = zonegen.rnd_digits(r)
        text = r.choice(["%s %s %s", "%s %s %s", "%s %s (%s)", "%s, %s %s"]) % (d, t, name)
        if iso and " " not in t and r.random() < 0.5:
            text = "%sT%s%s" % (d, t, name)
    else:
        text = r.choice(["%s %s", "%s, %s"]) % (d, t)
        if iso and " " not in t and r.random() < 0.5:
            text = "%sT%s" % (d, t)
    ptypes, formats = r.choice([[4], [4], []]), []
    if k >= 0.65 and r.random() < 0.3:      # the same without a zone by a custom format
        text, ptypes = "%02d|%02d|%04d %02d-%02d-%02d" % (g["d"], g["mo"], g["y"], g["h"], g["mi"], g["s"]), [3]
        formats = ["02|01|2006 15-04-05"]
        g["ns"] = 0
    nz = relgen.rnd_zone(r, 0)
    cfg = dict(langs=["en"], now=[2020, 6, 15, 12, 0, 0, 0], nowzone=relgen.driver_zone(nz), src=r.randrange(3), order="MDY",
               rtp=r.random() < 0.5)
    if dz:
        cfg["tz"] = relgen.driver_zone(dz)
    return dict(op="parse", text=text, ptypes=ptypes, formats=formats, cfg=cfg), dict(
        kind="fmt" if formats else "abs", x=x, ref=relgen.spec_zone(nz), w=wall(g), **{"def": rec_def(dz)})


def one_rel(r):
    req, rec = relgen.rnd_case(r, clock=0.15)
    x = dict(zonegen.NOZONE)
    k = r.random()
    if k < 0.35:
        x, name = zonegen.rnd_name(r)
        req["text"] += r.choice([" ", " ", " ("]) + name
        if "(" in req["text"]:
            req["text"] += ")"
    elif k < 0.75:
        x, name, bare = zonegen.rnd_digits(r)
        req["text"] += " " + name
    cfg = req["cfg"]
    has = "tz" in cfg
    z = rec.pop("z")
    d = dict(some=has, rule=z["rule"] if has else "fixed", std=z["std"] if has else 0)
    ref = dict(rule="fixed", std=cfg["nowzone"]["off"])
    return req, dict(rec, kind="rel", x=x, ref=ref, **{"def": d})


def one_pop(r):
    g = relgen.rnd_instant(r)
    d, t, g = abs_text(r, g)
    pre = r.choice(["%s %s " % (d, t), d + " ", t + " ", "see you on %s %s " % (d, t), "%s %s" % (d, t)])
    k = r.random()
    x, name = dict(zonegen.NOZONE), ""
    if k < 0.4:
        x, name = zonegen.rnd_name(r)
        if pre[-1] != " ":
            pre += r.choice(["|", " ", "é ", "。"])
    elif k < 0.8:
        x, name, bare = zonegen.rnd_digits(r)
        if not pre[-1].isdigit() and pre[-1] != " ":
            pre += " "
    elif k < 0.9:
        pre += r.choice([" ESTX", " XUTC", " GMTO", "EDTERR 2015", " lest"])
    text = pre + name
    return dict(op="poptz", text=text, cfg={}), dict(kind="pop", x=x, pre=pre)


def check(rep):
    drv = build_driver()
    rep.model("MCZones")
    rep.model("MCTextZone")
    r = rng("c12")
    n = 20000 if rep.thorough else 5000
    keys = ("some", "ed", "es", "ns", "off")
    cases = [one_abs(r) for _ in range(n)] + [one_rel(r) for _ in range(n)] + [one_pop(r) for _ in range(n // 2)]
    for z in zonegen.NAMES:                 # every name and every offset once
        x = dict(zonegen.NOZONE, k="name", n=z)
        cases.append((dict(op="poptz", text="15 May 2004 10:00 " + z, cfg={}), dict(kind="pop", x=x, pre="15 May 2004 10:00 ")))
        cases.append((dict(op="parse", text="15 May 2004 10:00 " + z, ptypes=[4], cfg=dict(langs=["en"], now=[2020, 6, 15, 12, 0, 0, 0])),
                      dict(kind="abs", x=x, ref=dict(rule="fixed", std=0), w=wall(dict(y=2004, mo=5, d=15, h=10, mi=0, s=0, ns=0)), **{"def": rec_def(None)})))
    for o in zonegen.OFFSETS:
        x = zonegen.digits(o)
        for f in ("UTC%s%02d:%02d", "GMT%s%02d:%02d", "%s%02d:%02d", "%s%02d%02d", "UTC%s%02d%02d", "GMT%s%d:%02d"):
            t = f % ("-" if o < 0 else "+", x["h"], x["m"])
            cases.append((dict(op="parse", text="15 May 2004 10:00 " + t, ptypes=[4], cfg=dict(langs=["en"], now=[2020, 6, 15, 12, 0, 0, 0])),
                          dict(kind="abs", x=x, ref=dict(rule="fixed", std=0), w=wall(dict(y=2004, mo=5, d=15, h=10, mi=0, s=0, ns=0)), **{"def": rec_def(None)})))
    judge(rep, drv, "TraceZone", cases,
          key=lambda o: dict(o={k: o["dt"][k] for k in keys}, out=o["out"], num=o["num"]))
