"""Questions of every kind to the library: entry points, texts in many languages, configurations."""
from vlib import *
import absgen, relgen, selgen, zonegen

CORPUS = selgen.CORPUS
HOURS = ["", "", " 10:30", " 23:59:59", " 7:05 PM"]
JMON = ["فروردین", "اردیبهشت", "خرداد", "تیر", "مرداد", "شهریور", "مهر", "آبان", "آذر", "دی", "بهمن", "اسفند"]
FORMATS = [["2006-01-02"], ["02/01/2006", "January 2, 2006"], ["2 January 2006 15:04"], ["Monday, 2 Jan 2006"], ["20060102150405"], ["15:04:05"], ["Jan 06"]]


def now(r):
    g = absgen.rnd_now(r, 1980, 2060)
    return absgen.nowlist(g)


def config(r, langs=None):
    """Any valid configuration with a fixed reference."""
    c = dict(now=now(r), order=r.choice(["", "", "DMY", "MDY", "YMD", "YDM"]), src=r.randrange(3), dom=r.randrange(3), moy=r.randrange(3),
             rtp=r.random() < 0.3, pem=r.random() < 0.3, strict=r.random() < 0.1)
    if r.random() < 0.1:
        c["req"] = [r.choice(["day", "month", "year"]) for _ in range(r.randint(1, 2))]
    if r.random() < 0.3:
        c["nowzone"] = relgen.driver_zone(relgen.rnd_zone(r, 0))
    if r.random() < 0.3:
        c["tz"] = relgen.driver_zone(relgen.rnd_zone(r, 0.4))
    if r.random() < 0.1:
        c["skip"] = [r.choice(["t", "um", "at", "de", "x"])]
    if r.random() < 0.1:
        c["deforder"] = True
    if langs is not None:
        c["langs"] = langs
    return c


def locales_for(r, loc):
    k = r.random()
    if k < 0.45:
        return dict(langs=[selgen.LOCALES[loc]["lang"]] if loc in selgen.LOCALES else ["en"])
    if k < 0.6:
        return dict(locales=[loc] if loc in selgen.LOCALES else ["en"])
    if k < 0.85:
        ls = list(dict.fromkeys([selgen.LOCALES[loc]["lang"] if loc in selgen.LOCALES else "en"] + [r.choice(selgen.POOL) for _ in range(r.randint(1, 4))]))
        r.shuffle(ls)
        return dict(langs=ls, given=r.random() < 0.4, region=r.choice(["", "", "", "CH", "BE"]))
    return {}


def numbers(r):
    """Texts of digits, with few words."""
    y, m, d = r.randint(1900, 2100), r.randint(1, 12), r.randint(1, 31)
    t = r.choice(["%d-%02d-%02d" % (y, m, d), "%d/%d/%d" % (d, m, y % 100), "%02d.%02d.%04d" % (d, m, y), "%04d%02d%02d" % (y, m, d), "%d %d" % (m, d),
                  "%d" % y, "%02d%02d%02d" % (d, m, y % 100), "%d" % r.randint(1, 99999), "%d/%d" % (m, d), "%d:%02d" % (r.randint(0, 25), r.randint(0, 61))])
    if r.random() < 0.3:
        t += " %d:%02d" % (r.randint(0, 23), r.randint(0, 59))
    if r.random() < 0.15:
        t += " " + r.choice(zonegen.NAMES)
    return t


def prose(r):
    k = r.random()
    if k < 0.5:
        return r.choice(CORPUS["prose"])
    parts = []
    for _ in range(r.randint(1, 4)):
        parts.append(r.choice(["we met on", "then", "before", "and again", "not", "she left", "in the year of", "there were 12 of them,", "version 3.14 of"]))
        parts.append(r.choice([absgen.rnd_case(r)[2], relgen.rnd_relative(r)[1], r.choice(CORPUS["dates"])["t"], numbers(r)]))
    return " ".join(parts)


def question(r, op=None):
    """(request, whether there may be a timestamp in the text, so that the zone of the host shows)"""
    q = ask(r, op)
    return q, bool(re.search(r"\d{10}", q["text"]))


def ask(r, op):
    op = op or r.choice(["parse"] * 12 + ["search"] * 3 + ["searchlang"] * 2 + ["hijri", "jalali", "poptz"])
    q = dict(op=op, cfg={}, formats=[], ptypes=[], lang="")
    if op == "parse":
        k = r.random()
        if k < 0.45:
            x = r.choice(CORPUS["dates"])
            t, sel = x["t"], locales_for(r, x["loc"])
            q["cfg"] = dict(config(r), **sel)
        elif k < 0.55:
            t = absgen.rnd_case(r)[2]
            q["cfg"] = dict(config(r), **locales_for(r, "en"))
        elif k < 0.65:
            q2, _ = relgen.rnd_case(r)
            t = q2["text"]
            q["cfg"] = dict(config(r), **locales_for(r, "en"))
            if r.random() < 0.5:
                q["cfg"] = q2["cfg"]
        elif k < 0.7:
            t = "%s%d%s" % (r.choice(["", "", "-"]), r.randint(10 ** 9, 2 * 10 ** 9), r.choice(["", "123", "123456"]))
            q["cfg"] = dict(config(r), **locales_for(r, "en"))
            q["cfg"].pop("req", None)
        elif k < 0.85:
            t = numbers(r)
            q["cfg"] = dict(config(r), **locales_for(r, r.choice(selgen.POOL)))
        else:
            x = r.choice(CORPUS["other"])
            t = x
            q["cfg"] = dict(config(r), **locales_for(r, "en"))
        if r.random() < 0.15:
            q["ptypes"] = r.sample(range(6), r.randint(1, 6))
        if r.random() < 0.15:
            q["formats"] = r.choice(FORMATS)
        if r.random() < 0.05:
            q["detect"] = [r.choice(selgen.POOL) for _ in range(2)]
            q["cfg"].pop("langs", None), q["cfg"].pop("locales", None)
        q["text"] = t
    elif op == "search":
        q["text"] = prose(r)
        ls = list(dict.fromkeys(["en"] + [r.choice(selgen.POOL) for _ in range(r.randint(0, 4))]))
        q["cfg"] = config(r, ls if r.random() < 0.75 else [])
        if r.random() < 0.1:
            q["cfg"]["locales"] = r.choice([["en-AU"], ["fr-BE", "nl"], ["en-AU", "de-CH"]])
    elif op == "searchlang":
        q["text"] = prose(r)
        q["lang"] = r.choice(["en", "en", "fr", "de", "vi", "hu", "ru", "es", "zh", "en-AU", "ar"])
        q["cfg"] = config(r)
    elif op == "hijri":
        q["text"] = "%s%d%s%02d%s%04d%s" % ("", r.randint(1, 30), "/", r.randint(1, 12), "/", r.randint(1350, 1502), r.choice(HOURS))
        q["cfg"] = config(r)
    elif op == "jalali":
        q["text"] = r.choice(["%d/%d/%d%s" % (r.randint(1, 31), r.randint(1, 12), r.randint(1300, 1420), r.choice(HOURS)),
                              "%d %s %d%s" % (r.randint(1, 31), r.choice(JMON), r.randint(1300, 1420), r.choice(HOURS)), "%d %s" % (r.randint(1, 31), r.choice(JMON))])
        q["cfg"] = config(r)
    else:
        q["text"] = r.choice(["", "5 March 2014 10:00 ", "10:00 "]) + r.choice(zonegen.NAMES + ["+0530", "GMT+2", "UTC-10:00", "x"])
    return q


def sibling(r, q):
    """The same text, asked in another way: one or two things of the configuration differ, or what the text is given to."""
    q, risky = q
    c = dict(q["cfg"])
    s = dict(q, cfg=c)
    if q["op"] in ("poptz", "hijri", "jalali"):
        s["cfg"] = config(r)
        return s, risky
    other = config(r)
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice(["skip", "skip", "order", "src", "dom", "moy", "rtp", "pem", "strict", "req", "now", "tz", "locale", "formats", "ptypes", "lower"])
        if q["op"] == "search" and len(c.get("langs") or []) > 1 and r.random() < 0.4:      # a list of the same length that names fewer languages
            i, j = r.sample(range(len(c["langs"])), 2)
            c["langs"] = list(c["langs"])
            c["langs"][i] = c["langs"][j]
        if k == "skip":
            words = re.findall(r"[^\W\d_]+", q["text"].lower())
            if c.get("skip"):
                c.pop("skip")
            else:
                c["skip"] = [r.choice(words + ["x"])]
        elif k in ("src", "dom", "moy"):
            c[k] = (c.get(k, 0) + r.randint(1, 2)) % 3
        elif k == "order":
            c[k] = r.choice([o for o in ["", "DMY", "MDY", "YMD", "YDM"] if o != c.get(k, "")])
        elif k in ("rtp", "pem", "strict"):
            c[k] = not c.get(k)
        elif k == "req":
            c.pop("req") if c.get("req") else c.update(req=["day"])
        elif k in ("now", "tz"):
            if k in other and not risky:
                c[k] = other[k]
        elif k == "locale" and q["op"] == "parse" and not q.get("detect"):
            for x in ("langs", "locales", "region", "given"):
                c.pop(x, None)
            c.update(locales_for(r, r.choice(selgen.POOL + ["en"] * 20)))
        elif k == "formats" and q["op"] == "parse":
            s["formats"] = [] if s.get("formats") else r.choice(FORMATS)
        elif k == "ptypes" and q["op"] == "parse":
            s["ptypes"] = [] if s.get("ptypes") else r.sample(range(6), 3)
        elif k == "lower":
            s["text"] = q["text"].lower()
    return s, risky


def answer(o, ts=False):
    """Everything that an answer says; the zone of the host is left out of timestamps (their instant is not)."""
    def date(d):
        return dict(d, y=0, mo=0, d=0, h=0, mi=0, s=0, off=0, wd=0, zone="") if ts else d
    return dict(d=date(o["dt"]), f=[dict(f, dt=date(f["dt"])) for f in o["found"]], l=o["lang"], x=o["out"], k=o["num"], e=o["iserr"], p=o["panic"], h=o["hang"])
