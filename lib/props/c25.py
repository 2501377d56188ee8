"""C25: a time of day is read exactly."""
from vlib import *
import absgen

SUFFIX = {"am": ["AM", "am", " AM", " am", " a.m.", "a.m.", " A.M."], "pm": ["PM", "pm", " PM", " pm", " p.m.", " P.M."],
          "": [""]}


def spell(r, w, colon_only=False):
    pad = r.random() < 0.7
    h = ("%02d" if pad else "%d") % w["h"]
    if w["mi"] < 0:
        t = h
    else:
        sep = ":"
        if w["s"] < 0 and not colon_only and w["mi"] <= 59 and w["h"] <= 23 and r.random() < 0.25:
            sep = "."
        t = h + sep + "%02d" % w["mi"]
        if w["s"] >= 0:
            t += ":%02d" % w["s"]
            if w["f"]:
                t += "." + "".join(map(str, w["f"]))
    return t + r.choice(SUFFIX[w["ap"]])


def rnd_time(r, bad=False):
    h = r.choice([r.randint(0, 23), 0, 12, 11, 13, 23])
    mi = r.choice([r.randint(0, 59), 0, 59])
    s = r.choice([-1, -1, r.randint(0, 59), 0, 59])
    ap = r.choice(["", "", "am", "pm"])
    f = []
    if s >= 0 and r.random() < 0.4:
        f = [r.choice([0, 0, 9, r.randint(0, 9)]) for _ in range(r.randint(1, 6))]
    if ap and s < 0 and r.random() < 0.3:
        mi = -1
    if ap and (s >= 0 or mi < 0) and h > 12:
        h -= 12
    if bad:
        k = r.randrange(4)
        if k == 0:
            h, ap = r.randint(24, 99), ("" if mi >= 0 else ap)
        elif k == 1 and mi >= 0:
            mi = r.randint(60, 99)
        elif k == 2:
            mi, s = max(mi, 0), r.choice([60, 61, r.randint(60, 99)])
        else:
            h, s, mi, ap = r.randint(13, 23), r.choice([s if s >= 0 else 5, 5]), max(mi, 0), r.choice(["am", "pm"])
    return dict(h=h, mi=mi, s=s, f=f, ap=ap)


def date_of(r, g):
    """A date and the ways to put a time next to it."""
    y, m = r.randint(1950, 2060), r.randint(1, 12)
    d = r.randint(1, absgen.dim(y, m))
    M = absgen.MON[m - 1]
    t = r.choice(["%d %s %d" % (d, M, y), "%s %d, %d" % (M, d, y), "%04d-%02d-%02d" % (y, m, d), "%d %s %d" % (d, M[:3], y),
                  "%02d/%02d/%d" % (m, d, y)])
    return dict(y=y, m=m, d=d), t


def build(r, n):
    out = []
    while len(out) < n:
        g = absgen.rnd_now(r)
        bad = r.random() < 0.25
        w = rnd_time(r, bad)
        rtp = r.random() < 0.6
        ctx = r.choice(["alone", "after", "after", "before", "at", "rel"])
        ptypes = [2, 4]
        day = dict(y=g["y"], m=g["mo"], d=g["d"])
        if ctx == "alone":
            text = spell(r, w, bad)
        elif ctx == "rel":
            if bad:
                continue
            k = r.randint(0, 40)
            import datetime
            try:
                dd = datetime.date(g["y"], g["mo"], g["d"]) + datetime.timedelta(days=r.choice([-1, 1]) * k)
            except OverflowError:
                continue
            delta = (dd - datetime.date(g["y"], g["mo"], g["d"])).days
            day = dict(y=dd.year, m=dd.month, d=dd.day)
            p = {0: "today", 1: "tomorrow", -1: "yesterday"}.get(delta)
            if p is None or r.random() < 0.3:
                p = "in %d days" % delta if delta > 0 else "%d days ago" % -delta
            t = spell(r, w, True)
            text = r.choice([p + " " + t, p + " at " + t, t + " " + p, p + ", " + t])
            if w["mi"] < 0 and text.startswith(t) or (w["mi"] < 0 and "at" not in text):
                text = p + " at " + t
        else:
            day, dt = date_of(r, g)
            t = spell(r, w, bad)
            if ctx == "before":
                text = t + r.choice([" ", ", "]) + dt
            elif ctx == "at":
                text = dt + " at " + t
            else:
                text = dt + r.choice([" ", ", "]) + t
                if dt[4:5] == "-" and ":" in t and not w["ap"] and len(t.split(":")[0]) == 2 and r.random() < 0.5:
                    text = dt + "T" + t
        if not bad and r.random() < 0.4:
            ptypes = []
        req = dict(op="parse", text=text, ptypes=ptypes, cfg=dict(langs=["en"], now=absgen.nowlist(g), rtp=rtp, order="MDY"))
        out.append((req, dict(w=w, d=day, rtp=rtp)))
    return out


def check(rep):
    drv = build_driver()
    rep.model("MCTimeOfDay", workers=1)
    judge(rep, drv, "TraceTime", build(rng("c25"), 60000 if rep.thorough else 12000))
