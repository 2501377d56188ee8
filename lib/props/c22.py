"""C22: dates without spaces."""
from vlib import *
import absgen

ORDERS = ["DMY", "DYM", "MDY", "MYD", "YMD", "YDM"]


def run_of(r, order):
    """A run of digits, and whether a colon may stand in it."""
    k = r.random()
    y, m = r.choice([r.randint(1000, 9999), r.randint(1900, 2100), r.randint(1900, 2100), r.randint(1900, 2100), r.choice([999, 1000, 1001, 9999, 1, 101])]), r.randint(1, 12)
    d = r.choice([r.randint(1, 31), r.randint(1, 28), absgen.dim(y, m), absgen.dim(y, m) + 1, 29])
    v2 = dict(D="%02d" % d, M="%02d" % m, Y="%04d" % y)
    vy = dict(v2, Y="%02d" % (y % 100))
    h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
    if r.random() < 0.1:
        h, mi, s = r.choice([(24, 0, 0), (h, 60, s), (h, mi, 60), (23, 59, 59), (0, 0, 0)])
    use = r.choice(ORDERS) if r.random() < 0.15 else order
    if k < 0.3:
        t = "".join(v2[x] for x in use)
    elif k < 0.5:
        t = "".join(v2[x] for x in use) + "%02d%02d%02d" % (h, mi, s)
    elif k < 0.58:
        t = "".join(v2[x] for x in use) + r.choice(["%02d%02d" % (h, mi), "%02d" % h, "%02d:%02d" % (h, mi), "%02d:%02d:%02d" % (h, mi, s)])
    elif k < 0.68:
        t = "".join(vy[x] for x in use) + r.choice(["", "", "%02d%02d" % (h, mi), "%02d%02d%02d" % (h, mi, s)])
    elif k < 0.75:
        v = dict(D=str(d), M=str(m), Y=r.choice([vy["Y"], v2["Y"]]))
        t = "".join(v[x] for x in use)
    elif k < 0.85:
        n = r.randint(1, 15)
        t = "".join(r.choice("0112233456789") for _ in range(n))
    else:
        t = "".join(v2[x] for x in use)
        i = r.randrange(len(t))
        t = t[:i] + r.choice("0123456789") + t[i + 1:]
        if r.random() < 0.3:
            i = r.randrange(1, len(t))
            t = t[:i] + ":" + t[i:]
    return t


DATES = ["Ymd", "Ydm", "mYd", "mdY", "dYm", "dmY", "ymd", "ydm", "myd", "mdy", "dym", "dmy"]
LAYOUTS = DATES + [d + c for d in DATES for c in ("HMS", "HM", "H")]
LIMITS = dict(Y=(1000, 9999), y=(0, 99), m=(1, 12), d=(1, 28), H=(0, 23), M=(0, 59), S=(0, 59))


def rank(t, layouts):
    """Position of the first layout that can read the digits (only to choose inputs: what is read is for the specification)."""
    def cut(t, l):
        if not l or not t:
            return not l and not t
        for w in ((4,) if l[0] == "Y" else (2,) if l[0] == "y" else (2, 1)):
            if len(t) >= w and LIMITS[l[0]][0] <= int(t[:w]) <= LIMITS[l[0]][1] and cut(t[w:], l[1:]):
                return True
        return False
    return next((i for i, l in enumerate(layouts) if cut(t, l)), len(layouts))


def late(r, order):
    """A run of digits that many layouts before the one that reads it do not."""
    o = order.lower()
    ls = sorted(LAYOUTS, key=lambda l: l.lower()[:3] != o)
    best = ("", -1)
    for _ in range(40):
        l = r.choice(ls)
        t = ""
        for c in l:
            v = r.choice([r.randint(*LIMITS[c]), LIMITS[c][0], r.randint(*LIMITS[c])])
            t += "%02d" % v if c == "y" or r.random() < 0.4 else str(v)
        n = rank(t, ls)
        if n < len(ls) and n > best[1]:
            best = (t, n)
        if r.random() < 0.08:
            break
    return best[0] or "1"


def one(r):
    order = r.choice(ORDERS)
    t = run_of(r, order) if r.random() < 0.6 else late(r, order)
    text, runs, off, cfg = t, [t.replace(":", "")], 0, {}
    if ":" in t and r.random() < 0.3:
        f = str(r.randint(0, 999999))
        text, runs = t + "." + f, runs + [f]
    if off == 0 and text in (t,) and r.random() < 0.2:
        off = r.choice([3600, -18000, 20700])
        cfg["tz"] = dict(name="F", off=off)
    if r.random() < 0.1:
        text = r.choice([" " + text, text + " ", "\t" + text + "\n"])
    cfg.update(langs=["en"], now=[2021, 6, 15, 12, 0, 0, 0], order=r.choice([order, order.lower()]), src=r.choice([0, 0, 1, 2]),
               rtp=r.random() < 0.3)
    demand = r.random() < 0.15
    if demand:
        if r.random() < 0.5:
            cfg["strict"] = True
        else:
            cfg["req"] = r.choice([["day"], ["month", "year"], ["year"]])
    return (dict(op="parse", text=text, ptypes=[5], cfg=cfg),
            dict(runs=[[int(c) for c in x] for x in runs], order=list(order.lower()), demand=demand, off=off))


def check(rep):
    drv = build_driver()
    rep.model("MCNoSpace", "MCNoSpaceBig" if rep.thorough else None)
    r = rng("c22")
    judge(rep, drv, "TraceNoSpace", [one(r) for _ in range(40000 if rep.thorough else 8000)],
          key=lambda o: dict(o={k: o["dt"][k] for k in ("some", "y", "mo", "d", "h", "mi", "s", "ns", "off", "per")}))
