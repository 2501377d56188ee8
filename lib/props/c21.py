"""C21: custom formats."""
from vlib import *
import absgen
from props import c07, c09

DAYE, MONE, YEARE = ["02", "2", "2"], ["01", "1", "January", "Jan", "January"], ["2006", "2006", "06"]
CLOCKS = [["15", ":", "04"], ["15", ":", "04", ":", "05"], ["3", ":", "04", " ", "PM"], ["03", ":", "04", ":", "05", " ", "pm"],
          ["15", "h", "4"], ["15", ":", "4", ":", "5"], ["15"], ["3", "PM"]]
SEPS = ["-", "/", ".", " ", ", ", " de ", "~", " / "]
PLAIN = ["-", "/", " ", ":"]      # separators that are kept in a text that has to be translated
NAMES = ["2006", "06", "01", "1", "January", "Jan", "Monday", "Mon", "02", "2", "15", "03", "3", "04", "4", "05", "5", "PM", "pm"]


def elem(k):
    return dict(k=k) if k in NAMES else dict(k="s", v=k)


def layout(r):
    """A layout as a list of element names and separators."""
    parts = []
    k = r.random()
    if k < 0.55:
        parts = [r.choice(DAYE), r.choice(MONE), r.choice(YEARE)]
    elif k < 0.75:
        parts = [r.choice(DAYE), r.choice(MONE)]
    elif k < 0.87:
        parts = [r.choice(MONE), r.choice(YEARE)]
    elif k < 0.92:
        parts = [r.choice(DAYE), r.choice(YEARE)]
    elif k < 0.97:
        parts = [r.choice(r.choice([DAYE, MONE, YEARE]))]
    r.shuffle(parts)
    if parts and r.random() < 0.15:
        parts.insert(0, r.choice(["Monday", "Mon"]))
    sep = r.choice(SEPS)
    out = []
    for p in parts:
        if out:
            out.append(sep if r.random() < 0.9 else r.choice(SEPS))
        out.append(p)
    if not parts or r.random() < 0.35:
        c = r.choice(CLOCKS)
        out = out + ([r.choice([" ", "T", " at "])] if out else []) + c
    if r.random() < 0.1:
        out = [r.choice(["on ", "(", "#"])] + out
    return out


def token(r, k, v):
    n = lambda x, w: dict(k="n", v=x, w=w)
    w = lambda x: n(x, 2 if x > 9 or r.random() < 0.4 else 1)
    if k == "2006":
        return n(v["y"], 4)
    if k == "06":
        return n(v["y"] % 100, 2)
    if k in ("January", "Jan"):
        return dict(k="m", v=v["m"], w=3 if v["m"] == 5 else (1 if k == "January" else 2))
    if k in ("Monday", "Mon"):
        return dict(k="wd", v=v["wd"], w=1 if k == "Monday" else 2)
    if k in ("PM", "pm"):
        return dict(k="pm", v=int(v["h"] >= 12), w=int(k == "PM"))
    x = {"01": v["m"], "1": v["m"], "02": v["d"], "2": v["d"], "15": v["h"], "03": v["h"] % 12 or 12, "3": v["h"] % 12 or 12,
         "04": v["mi"], "4": v["mi"], "05": v["s"], "5": v["s"]}[k]
    return n(x, 2) if k[0] == "0" else w(x)


def text_of(r, t, months=None):
    if t["k"] == "s":
        return t["v"]
    if t["k"] == "n":
        return "%0*d" % (t["w"], t["v"])
    if t["k"] == "pm":
        return [["am", "pm"], ["AM", "PM"]][t["w"]][t["v"]]
    if t["k"] == "m":
        s = (months or absgen.MON)[t["v"] - 1] if t["w"] != 2 else absgen.MON[t["v"] - 1][:3]
    else:
        s = absgen.WD[t["v"] - 1] if t["w"] == 1 else absgen.WD[t["v"] - 1][:3]
    return r.choice([s, s, s.lower(), s.upper()]) if not months else s


def tokens(r, lay, v):
    out = []
    for k in lay:
        out.append(token(r, k, v) if k in NAMES else dict(k="s", v=k, w=0))
    return out


def merge(xs):
    """Neighbouring separators are one token, in texts and in layouts."""
    out = []
    for x in xs:
        if out and x["k"] == "s" and out[-1]["k"] == "s":
            out[-1] = dict(out[-1], v=out[-1]["v"] + x["v"])
        else:
            out.append(x)
    return out


def values(r, g):
    y = r.choice([r.randint(1970, 2067), r.randint(1970, 2067), 2000, 2016, r.randint(1000, 9999)])
    m = r.randint(1, 12)
    return dict(y=y, m=m, d=r.choice([r.randint(1, 31), r.randint(1, 28), absgen.dim(y, m), 29]), wd=r.randint(1, 7),
                h=r.randint(0, 23), mi=r.randint(0, 59), s=r.randint(0, 59))


def variant(r, lay):
    """Another layout of the same text, with other elements for the same tokens."""
    swap = {"02": ["2", "15"], "2": ["02", "15", "4"], "01": ["1", "02", "04"], "1": ["01", "2", "15"], "2006": ["06"], "06": ["02", "2006", "04"], "January": ["Jan"],
            "Jan": ["January"], "15": ["3"], "04": ["4", "05"], "PM": ["pm"], "pm": ["PM"]}
    out = [r.choice(swap[k]) if k in swap and r.random() < 0.5 else k for k in lay]
    kinds = [KIND[k] for k in out if k in KIND]
    return out if len(set(kinds)) == len(kinds) else lay      # no part is written twice


KIND = {"15": "h", "03": "h", "3": "h", "02": "d", "2": "d", "01": "m", "1": "m", "January": "m", "Jan": "m", "2006": "y", "06": "y", "04": "i", "4": "i", "05": "s", "5": "s"}


def one(r):
    g = c07.reference(r, absgen.rnd_now(r))
    demand = r.random() < 0.3
    g.update(req=r.sample(["day", "month", "year"], r.randint(0, 3)) if demand else [], strict=demand and r.random() < 0.4)
    lay = layout(r)
    x = tokens(r, lay, values(r, g))
    lays = [lay]
    k = r.random()
    if k < 0.25:
        lays = [variant(r, lay), lay]
    elif k < 0.4:
        lays = [lay, variant(r, lay)]
    elif k < 0.5:
        lays = [layout(r), lay]
    elif k < 0.58:
        lays = [variant(r, lay)]
    elif k < 0.62:
        lays = [layout(r), variant(r, lay), variant(r, lay), lay]
    if r.random() < 0.08:      # spoil one token
        i = r.randrange(len(x))
        if x[i]["k"] == "n":
            x[i] = dict(x[i], v=r.choice([0, 13, 32, 60, 99]), w=2)
    full = [i for i, t in enumerate(x) if t["k"] == "m" and t["w"] in (1, 3)]
    lang, months = "en", None
    if full and r.random() < 0.35 and not any(t["k"] in ("wd", "pm") or (t["k"] == "m" and t["w"] == 2) or
                                             (t["k"] == "s" and t["v"] not in PLAIN) for t in x):
        lang = r.choice(sorted(c09.MONTHS))
        months = c09.MONTHS[lang]
        for i in full:                # the layout needs the name in full
            x[i] = dict(x[i], w=1)
        lays = [[("January" if k == "Jan" else k) for k in l] for l in lays]
        # a name that is written as in English needs no translation
        if all(months[x[i]["v"] - 1].lower() == absgen.MON[x[i]["v"] - 1].lower() for i in full):
            months = None
    text = "".join(text_of(r, t, months) for t in x)
    off, tz = 0, None
    if r.random() < 0.3:
        off = r.choice([3600, -18000, 20700])
        tz = dict(name="F", off=off)
    q = c07.request({}, g, text, r.choice(["DMY", "MDY"]), r.choice([0, 0, 3600, -36000]))
    q["cfg"]["langs"] = [lang] if r.random() < 0.7 else [lang, "it"]
    q["formats"] = ["".join(l) for l in lays]
    q["ptypes"] = [3]
    if tz:
        q["cfg"]["tz"] = tz
    return q, dict(x=merge(x), ls=[merge([elem(k) for k in l]) for l in lays], g=g, off=off,
                   raw=not months, lang=lang, plain=all(t["v"] in PLAIN for t in x if t["k"] == "s"))


def check(rep):
    drv = build_driver()
    rep.model("MCFormats")
    r = rng("c21")
    judge(rep, drv, "TraceFormats", [one(r) for _ in range(50000 if rep.thorough else 10000)], keep=("text", "formats"),
          key=lambda o: dict(o={k: o["dt"][k] for k in ("some", "y", "mo", "d", "h", "mi", "s", "ns", "off", "per", "loc")}))
