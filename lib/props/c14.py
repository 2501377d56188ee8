"""C14: the order of numbers in a date."""
from vlib import *
import absgen
from props import c07

LOCALES = json.load(open(os.path.join(VERIF, "spec", "locales.json")))
ORDERS = ["DMY", "DYM", "MDY", "MYD", "YMD", "YDM"]
NOTORDERS = ["", "", "DM", "DMYD", "DDM", "XYZ", "DMY.", "D M", "ÄMY"]


def number(r, g, kind):
    if kind == "d":
        v = r.choice([r.randint(1, 31), r.randint(1, 12), r.randint(13, 31), g["d"]])
    elif kind == "m":
        v = r.choice([r.randint(1, 12), g["mo"]])
    elif kind == "Y":
        return dict(k="n", v=r.choice([r.randint(1901, 2099), r.randint(1000, 9999), g["y"]]), w=4)
    elif kind == "y":
        return dict(k="n", v=r.randint(0, 99), w=2)
    else:
        v = r.randint(1, 99)
    return dict(k="n", v=v, w=2 if v > 9 or r.random() < 0.5 else 1)


def text_of(tok, r):
    if tok["k"] == "m":
        M = absgen.MON[tok["v"] - 1]
        return r.choice([M, M[:3], M.lower()])
    return "%0*d" % (tok["w"], tok["v"])


def one(r, names=True):
    g = c07.reference(r, absgen.rnd_now(r))
    order = r.choice(ORDERS)
    n = r.choice([3] * 6 + [2])
    k = r.random()
    yk = r.choice("YYYy")
    if n == 3 and k < 0.45:      # in some order, most often the configured one
        o = order if r.random() < 0.6 else r.choice(ORDERS)
        ts = [number(r, g, yk if c == "Y" else c.lower()) for c in o]
    elif n == 3 and k < 0.7 and names:
        ts = [number(r, g, "d"), dict(k="m", v=r.randint(1, 12), w=0), number(r, g, yk)]
        r.shuffle(ts)
    elif n == 3:
        ts = [number(r, g, r.choice("dmYy?")) for _ in range(3)]
    else:
        ts = [number(r, g, r.choice("dmY")), number(r, g, r.choice("dmY"))]
    sep = r.choice(["/", "-", " "]) if n == 2 else r.choice(["/", "-", ".", " ", "/", ", " if names else "-"])
    text = sep.join(text_of(x, r) for x in ts)
    if "." in text and any(x["k"] == "m" for x in ts):      # beside a name two numbers are a time
        text = text.replace(".", "-")
    elif n == 3 and "." not in text and r.random() < 0.1:
        text = text.replace(sep, r.choice("/-"), 1)
    t = dict(t=False, h=0, mi=0, s=0, ns=0, tp="")
    if r.random() < 0.25:
        tt, txt = absgen.rnd_time(r, g)
        if ":" in txt and (names or not txt[-1].isalpha()):
            t.update(tt, t=True)
            text += " " + txt
    return g, order, ts, text, t


def readable(ts, text):
    """Two numbers beside a period are a time, a year of four digits behind a minus sign may be an offset."""
    return not any(x["k"] == "n" and x["w"] == 4 and ("-%04d" % x["v"]) in text and (x["v"] < 1500) for x in ts)


def build(r, n):
    names = sorted(LOCALES)
    cases = []
    while len(cases) < n:
        own = r.random() < 0.4
        g, order, ts, text, t = one(r, names=not own)
        if not readable(ts, text):
            continue
        want = r.choice(names) if own else "en"
        g["rtp"] = g["rtp"] and not own
        q = c07.request({}, g, text, "")
        cfg = q["cfg"]
        q["ptypes"] = [4]
        cfg.pop("langs")
        cfg["locales"] = [want]
        k = r.random()
        asked = order
        if own and k < 0.5 or k < 0.1:
            asked = r.choice(NOTORDERS) if r.random() < 0.4 else ""
            cfg["order"] = asked
        elif k < 0.5:
            cfg["order"] = asked if r.random() < 0.8 else asked.lower()
        else:                       # asked for by the name of the locale
            other = r.choice(ORDERS)
            cfg["orderfn"] = {want: asked, "*": other}
            cfg["order"] = ""
        cases.append((q, dict(ts=ts, asked=list(asked), want=want, g=g, t=t)))
    return cases


def check(rep):
    drv = build_driver()
    rep.model("MCNumbers")
    judge(rep, drv, "TraceNumbers", build(rng("c14"), 50000 if rep.thorough else 10000),
          key=lambda o: dict(o={k: o["dt"][k] for k in ("some", "y", "mo", "d", "h", "mi", "s", "ns", "per", "loc")}))
