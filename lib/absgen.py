"""Dates written in parts: the parts, a reference with preferences, and the string that says so."""
import datetime

MON = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October",
       "November", "December"]
WD = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def dim(y, m):
    return 29 if m == 2 and leap(y) else MLEN[m - 1]


def rnd_now(r, lo=1971, hi=2068):
    """Reference moments: month ends, leap days, year and century borders weigh more than their share."""
    y = r.choice([r.randint(lo, hi), r.choice([1999, 2000, 2001, 2004, 2015, 2016, 2023, 2024, 2036])])
    m = r.choice([r.randint(1, 12), r.choice([1, 2, 2, 3, 12])])
    n = dim(y, m)
    d = r.choice([r.randint(1, n), r.choice([1, n, n - 1, min(29, n), min(28, n)])])
    t = r.choice([(0, 0, 0, 0), (23, 59, 59, 999999999), (12, 0, 0, 0),
                  (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 1, 500000000]))])
    return dict(y=y, mo=m, d=d, h=t[0], mi=t[1], s=t[2], ns=t[3])


def nowlist(g):
    return [g["y"], g["mo"], g["d"], g["h"], g["mi"], g["s"], g["ns"]]


def rnd_time(r, near=None):
    """A time of day with its text and its precision. Times next to `near` are likely."""
    h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
    if near and r.random() < 0.5:
        h, mi, s = near["h"], near["mi"], near["s"]
        k = r.choice([-1, 0, 0, 1])
        if r.random() < 0.5:
            mi = (mi + k) % 60
        else:
            s = (s + k) % 60
    ns = 0
    style = r.randrange(7)
    h12, ap = (h % 12) or 12, ("AM" if h < 12 else "PM")
    if style == 0:
        txt, s, p = "%d:%02d" % (h, mi), 0, "Minute"
    elif style == 1:
        txt, p = "%02d:%02d:%02d" % (h, mi, s), "Second"
    elif style == 2:
        txt, s, p = "%d:%02d %s" % (h12, mi, ap), 0, "Minute"
    elif style == 3:
        txt, p = "%d:%02d:%02d %s" % (h12, mi, s, ap.lower()), "Second"
    elif style == 4:
        f = r.choice(["1", "25", "007", "123456", "999999", "500000", "000001"])
        ns = int(f.ljust(9, "0"))
        txt, p = "%02d:%02d:%02d.%s" % (h, mi, s, f), "Second"
    elif style == 5:
        txt, mi, s, p = "%d %s" % (h12, ap), 0, 0, "Hour"
    else:
        txt, s, p = "%d:%02d%s" % (h12, mi, ap.lower()), 0, "Minute"
    return dict(h=h, mi=mi, s=s, ns=ns, tp=p), txt


def parts(**kw):
    c = dict(wd=0, d=0, m=0, y=0, yl=0, t=False, h=0, mi=0, s=0, ns=0, tp="")
    c.update(kw)
    return c


def date_text(r, c):
    """The text of the date parts (not the time) in English. Returns None when there is no plain way."""
    d, m, y, yl, wd = c["d"], c["m"], c["y"], c["yl"], c["wd"]
    M = r.choice([MON[m - 1], MON[m - 1][:3]]) if m else ""
    if r.random() < 0.2:
        M = r.choice([M.lower(), M.upper()])
    Y = ("%04d" % y if yl == 4 else "%02d" % y) if yl else ""
    W = r.choice([WD[wd - 1], WD[wd - 1][:3]]) if wd else ""
    D = r.choice(["%d" % d, "%02d" % d]) if d else ""
    if d and m and yl:
        if yl == 4:
            t = r.choice(["%s %s %s" % (D, M, Y), "%s %s, %s" % (M, D, Y), "%s %s %s" % (Y, M, D),
                          "%s-%s-%s" % (D, M, Y), "%s/%s/%s" % (D, M, Y), "%s %s %s" % (M, D, Y),
                          "%s.%s.%s" % (D, M, Y)])
        else:
            t = r.choice(["%s %s %s" % (D, M, Y), "%s-%s-%s" % (D, M, Y), "%s %s, %s" % (M, D, Y)])
    elif d and m:
        t = r.choice(["%s %s" % (D, M), "%s %s" % (M, D), "%s-%s" % (D, M)])
    elif m and yl == 4:
        t = r.choice(["%s %s" % (M, Y), "%s, %s" % (M, Y), "%s %s" % (Y, M)])
    elif m and not yl:
        t = M
    elif d and yl == 4:
        t = "%s %s" % (D, Y)
    elif yl == 4 and not d:
        t = Y
    elif d and not yl:
        t = D
    elif wd:
        return W
    else:
        return None
    if W:
        t = r.choice(["%s %s", "%s, %s"]) % (W, t)
    return t


def rnd_case(r, shape=None, near=True, g=None):
    """One case: (parts, reference, text, date order)."""
    g = g or rnd_now(r)
    shape = shape or r.choice(["dmy"] * 4 + ["dm"] * 5 + ["my"] * 3 + ["m"] * 3 + ["y"] * 2 + ["d"] * 2 + ["dy"] +
                              ["w"] * 4 + ["t"] * 3 + ["dmy2"] * 3 + ["wdmy", "wdm"])
    c = parts()
    if "w" in shape:
        c["wd"] = r.randint(1, 7)
    if "y" in shape:
        if shape == "dmy2":
            c["yl"], c["y"] = 2, r.choice([r.randint(0, 99), 0, 68, 69, 99, g["y"] % 100])
        else:
            c["yl"], c["y"] = 4, r.choice([r.randint(1901, 2099), g["y"], g["y"], g["y"] - 1, g["y"] + 1, 1900, 2000,
                                           2100, 1600, r.randint(1000, 9999)])
    if "m" in shape:
        c["m"] = r.choice([r.randint(1, 12), g["mo"], 2])
    if "d" in shape:
        c["d"] = r.choice([r.randint(1, 31), r.randint(1, 28), g["d"], 29, 30, 31])
        if near and shape == "dm" and r.random() < 0.3:
            c["m"], c["d"] = g["mo"], max(1, min(31, g["d"] + r.choice([-1, 0, 0, 1])))
    text = "" if shape == "t" else date_text(r, c)
    order = "MDY"
    if c["d"] and not c["m"]:
        order = r.choice(["DMY", "DYM"])
    if c["yl"] == 2:
        order = "MDY"
    if shape == "t" or r.random() < 0.35:
        tt, txt = rnd_time(r, g)
        if not (shape in ("y", "d", "dy", "my", "m") and ":" not in txt):
            c.update(tt)
            c["t"] = True
            text = (text + " " + txt).strip() if (r.random() < 0.8 or not text) else text + " at " + txt
            if shape in ("d", "dy") and "at" not in text:
                pass
    return c, g, text, order
