"""Relative dates: amounts with a direction, the text that says so, and the moment of reference as instant and zone."""
import calendar, datetime
import absgen

UNITS = ["dec", "y", "mo", "w", "d", "h", "mi", "s"]
NAMES = dict(dec=["decade", "decades"], y=["year", "years", "yr"], mo=["month", "months"], w=["week", "weeks"],
             d=["day", "days"], h=["hour", "hours", "hr", "hrs"], mi=["minute", "minutes", "min", "mins"],
             s=["second", "seconds", "sec", "secs"])
NUMS = {1: "one", 2: "two", 3: "three", 4: "four", 5: "five", 6: "six", 7: "seven", 8: "eight", 9: "nine", 10: "ten",
        11: "eleven", 12: "twelve"}
PHRASES = ["now", "today", "yesterday", "tomorrow", "day before yesterday", "day after tomorrow", "last week", "next week",
           "this week", "last month", "next month", "this month", "last year", "next year", "this year",
           "last decade", "next decade", "this decade", "this hour", "this minute", "less than 1 minute ago"]
EPOCH = datetime.date(1970, 1, 1).toordinal()
RULES = [dict(name="America/New_York", rule="us", std=-18000), dict(name="America/Los_Angeles", rule="us", std=-28800),
         dict(name="America/Chicago", rule="us", std=-21600), dict(name="Europe/London", rule="eu", std=0),
         dict(name="Europe/Berlin", rule="eu", std=3600), dict(name="Europe/Athens", rule="eu", std=7200),
         dict(name="Australia/Sydney", rule="sydney", std=36000), dict(name="Asia/Kolkata", rule="fixed", std=19800),
         dict(name="Asia/Tokyo", rule="fixed", std=32400), dict(name="Asia/Kathmandu", rule="fixed", std=20700)]


def fixed(off, name=None):
    return dict(name=name or ("UTC" if off == 0 else "F"), rule="fixed", std=off, off=off)


def rnd_zone(r, dst=0.5):
    if r.random() < dst:
        return dict(r.choice(RULES))
    return fixed(r.choice([0, 0, 3600, -18000, 20700, 50400, -43200, 19800, -12600, 45900]))


def driver_zone(z):
    return dict(name=z["name"], off=z["off"]) if "off" in z else dict(name=z["name"])


def spec_zone(z):
    return dict(rule=z["rule"], std=z["std"])


def nth_sunday(y, m, k):
    days = [d for d in range(1, absgen.dim(y, m) + 1) if datetime.date(y, m, d).weekday() == 6]
    return datetime.date(y, m, days[k])


def rnd_instant(r, lo=2009, hi=2036):
    """A moment as UTC wall clock: (y mo d h mi s ns) and as instant. Days next to a change of clocks are likely."""
    g = absgen.rnd_now(r, lo, hi)
    g["y"] = min(max(g["y"], lo), hi)
    g["d"] = min(g["d"], absgen.dim(g["y"], g["mo"]))
    if r.random() < 0.3:
        m, k = r.choice([(3, 1), (11, 0), (3, -1), (10, -1), (4, 0), (10, 0)])
        x = nth_sunday(g["y"], m, k) + datetime.timedelta(days=r.choice([-1, -1, 0, 0, 0, 1]))
        g.update(mo=x.month, d=x.day, h=r.choice([r.randint(0, 23), 0, 1, 2, 5, 6, 7, 9, 15, 16]), mi=r.choice([0, 30, 59]))
    return g


def instant(g):
    return dict(ed=datetime.date(g["y"], g["mo"], g["d"]).toordinal() - EPOCH, es=g["h"] * 3600 + g["mi"] * 60 + g["s"],
                ns=g["ns"])


def now_in(g, z):
    """The reference as the driver wants it: the wall clock of the fixed zone z, or None when z has rules."""
    x = datetime.datetime(g["y"], g["mo"], g["d"], g["h"], g["mi"], g["s"]) + datetime.timedelta(seconds=z["std"])
    return [x.year, x.month, x.day, x.hour, x.minute, x.second, g["ns"]]


def rnd_amount(r, u, small, comma=True):
    """(thousandths, text)"""
    k = r.random()
    top = dict(dec=3, y=40, mo=60, w=200, d=1000, h=2000, mi=5000, s=100000)[u]
    if small:
        top = dict(dec=0, y=3, mo=30, w=60, d=400, h=200, mi=5000, s=100000)[u]
    n = r.choice([r.randint(0, 12), r.randint(0, top)]) if top > 12 else r.randint(0, top)
    if k < 0.6:
        return n * 1000, "%d" % n
    if k < 0.68:
        n = max(1, min(n, 12, top or 1))
        return n * 1000, NUMS[n]
    if k < 0.72 and u not in ("w",):
        return 1000, "an" if u == "h" else "a"
    d = r.randint(1, 3)
    f = r.choice([r.randint(0, 10 ** d - 1), 5 * 10 ** (d - 1), 10 ** d - 1])
    n = min(n, 900)
    return n * 1000 + f * 10 ** (3 - d), "%d%s%0*d" % (n, r.choice(["."] * 3 + [",." [comma is False]]), d, f)


def rnd_relative(r, small=False):
    """dict(a, ph, dir), text"""
    a = {u: -1 for u in UNITS}
    if r.random() < 0.2:
        p = r.choice([x for x in PHRASES if not (small and "decade" in x)])
        t = p
        if r.random() < 0.2:
            t = r.choice([str.upper, str.capitalize])(t)
        return dict(a=a, ph=p, dir=""), t
    us = [u for u in UNITS if not (small and u == "dec")]
    k = r.choice([1, 1, 1, 1, 2, 2, 3, r.randint(1, len(us))])
    us = r.sample(us, k)
    if r.random() < 0.8:
        us.sort(key=UNITS.index)
    parts = []
    for u in us:
        v, t = rnd_amount(r, u, small, len(us) == 1)
        a[u] = v
        name = r.choice(NAMES[u][:2] if "," in t else NAMES[u])
        glue = "" if t[-1].isdigit() and "," not in t and len(us) == 1 and r.random() < 0.1 else " "
        parts.append(t + glue + name)
    sep = r.choice([" ", ", ", " and "])
    text = sep.join(parts)
    if len(parts) > 2 and r.random() < 0.3:
        text = ", ".join(parts[:-1]) + " and " + parts[-1]
    dr = r.choice(["ago", "ago", "in", "in", ""])
    if "," in parts[0]:                     # a decimal comma is read in "1,5 hours ago" and "in 1,5 hours" only
        dr = r.choice(["ago", "in"])
    if dr == "ago":
        text += " ago"
    elif dr == "in":
        f = r.randrange(4)
        whole = all(a[u] % 1000 == 0 for u in us)
        if f == 1 and whole:
            text += " from now"
        elif f == 2 and len(us) == 1 and us[0] in "ymowdhmis" and parts[0][-1] == "s" and parts[0].split()[-1] in (
                "years", "months", "weeks", "days", "hours", "minutes", "seconds") and parts[0][0].isdigit() and " " in parts[0]:
            text += " later"
        else:
            text = "in " + text
    return dict(a=a, ph="", dir=dr), text


def rnd_clock(r):
    """A time of day that can stand next to a relative date, and its text."""
    h, mi, s = r.choice([r.randint(0, 23), 0, 1, 2, 3]), r.choice([r.randint(0, 59), 0, 30]), r.randint(0, 59)
    h12, ap = (h % 12) or 12, ("AM" if h < 12 else "PM")
    k = r.randrange(4)
    ns = 0
    if k == 0:
        t, s, p = "%d:%02d" % (h, mi), 0, "Minute"
    elif k == 1:
        t, p = "%02d:%02d:%02d" % (h, mi, s), "Second"
    elif k == 2:
        t, s, p = "%d:%02d %s" % (h12, mi, ap), 0, "Minute"
    else:
        ns = r.choice([250000000, 1000, 999999000])
        t, p = "%02d:%02d:%02d.%06d" % (h, mi, s, ns // 1000), "Second"
    return dict(t=True, h=h, mi=mi, s=s, ns=ns, tp=p), t


NOCLOCK = dict(t=False, h=0, mi=0, s=0, ns=0, tp="")


def rnd_case(r, textzone=None, clock=0.25):
    """(request, record of TraceRelative)"""
    g = rnd_instant(r) if r.random() < 0.8 else absgen.rnd_now(r, 1950, 2090)
    free = not (2009 <= g["y"] <= 2036)
    nz = rnd_zone(r, 0)                         # the zone the reference is given in
    dz = None if r.random() < 0.4 else rnd_zone(r, 0 if free else 0.6)
    small = not free and dz is not None and "off" not in dz
    rel, text = rnd_relative(r, small)
    if small and (g["y"] < 2014 or g["y"] > 2030):
        g["y"] = r.randint(2014, 2030)
        g["d"] = min(g["d"], absgen.dim(g["y"], g["mo"]))
    t = dict(NOCLOCK)
    if r.random() < clock:
        t, tt = rnd_clock(r)
        text = r.choice([text + " at " + tt, text + " " + tt, text + ", " + tt])
    z = dz or nz
    if textzone and r.random() < 0.6:
        name, off = textzone(r)
        text += " " + name
        z = fixed(off)
    cfg = dict(langs=["en"], now=now_in(g, nz), nowzone=driver_zone(nz), src=r.randrange(3), pem=r.random() < 0.4,
               rtp=r.random() < 0.6)
    if dz:
        cfg["tz"] = driver_zone(dz)
    req = dict(op="parse", text=text, ptypes=r.choice([[2], [2, 4], []]), cfg=cfg)
    rec = dict(now=instant(g), z=spec_zone(z), src=cfg["src"], pem=cfg["pem"], rtp=cfg["rtp"], t=t, **rel)
    return req, rec
