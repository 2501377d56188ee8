"""Dates in the layouts of the languages (spec/layouts.json): what is written and the text that writes it."""
import absgen
import datetime
import json
import os

REGIONS = json.load(open(os.path.join(os.path.dirname(__file__), "..", "spec", "regions.json")))


def where(at):
    return dict(locales=[at]) if at in REGIONS else dict(langs=[at])


def text(e, x):
    """The text of the date x (with all parts) in the layout e["lay"] with the words e["M"], e["W"] and e["P"]."""
    t = ""
    for k, v in e["lay"]:
        if k == "lit":
            t += v
        elif k == "M":
            t += e["M"][x["m"] - 1]
        elif k == "W":
            t += e["W"][x["wd"] - 1]
        elif k == "P":
            t += e["P"][0 if x["h"] < 12 else 1]
        else:
            n = dict(d=x["d"], mo=x["m"], y=x["y"] if v == "4" else x["y"] % 100, mi=x["mi"], s=x["s"],
                     h=((x["h"] + 11) % 12 + 1) if e["P"] else x["h"])[k]
            t += "%02d" % n if v == "2" else str(n)
    return t


def order(e):
    o = "".join({"d": "D", "mo": "M", "M": "M", "y": "Y"}.get(k, "") for k, _ in e["lay"])
    return o + "".join(c for c in "DMY" if c not in o)


def written(e, x):
    """The parts of x that the layout writes, as the specification wants them."""
    ks = {k: v for k, v in e["lay"]}
    c = absgen.parts()
    if "d" in ks:
        c["d"] = x["d"]
    if "M" in ks or "mo" in ks:
        c["m"] = x["m"]
    if "W" in ks:
        c["wd"] = x["wd"]
    if "y" in ks:
        c["yl"] = int(ks["y"])
        c["y"] = x["y"] if c["yl"] == 4 else x["y"] % 100
    if "h" in ks:
        c.update(t=True, h=x["h"], mi=x["mi"] if "mi" in ks else 0, s=x["s"] if "s" in ks else 0,
                 tp="Second" if "s" in ks else "Minute" if "mi" in ks else "Hour")
    return c


def moment(r, n=None):
    """A moment with its weekday; n walks through the months, the weekdays and the halves of the day."""
    y = r.randint(2000, 2060)
    m = r.randint(1, 12) if n is None else n % 12 + 1
    d = r.randint(1, absgen.dim(y, m))
    if n is not None:
        d = max(1, min(28, r.choice([13, 20, 21, 22, 6, 1]) + 0))
        w = (n + n // 12) % 7
        while datetime.date(y, m, d).weekday() != w:
            d = d % 28 + 1
    x = dict(y=y, m=m, d=d, wd=datetime.date(y, m, d).weekday() + 1, h=r.choice([r.randint(0, 23), r.choice([0, 12])]), mi=r.randint(0, 59),
             s=r.randint(0, 59))
    if n is not None:
        x["h"] = [0, 12, r.randint(1, 11), r.randint(13, 23)][n // 2 % 4]
    return x


def ask(r, e, n=None):
    """A question: the request, the moment that it writes and the reference."""
    x = moment(r, n)
    g = dict(absgen.rnd_now(r, 1990, 2060), src=r.randrange(3), dom=r.randrange(3), moy=r.randrange(3), strict=False, req=[],
             rtp=r.random() < 0.5, shift=0)
    c = written(e, x)
    if n is not None:                                    # nothing to fill in
        g.update(y=x["y"] if not c["yl"] else g["y"], src=0)
    q = dict(op="parse", text=text(e, x), cfg=dict(
        where(e["loc"]), now=absgen.nowlist(g), order=order(e), src=g["src"], dom=g["dom"], moy=g["moy"], rtp=g["rtp"]))
    return q, x, g


def plain(c, d):
    """A first look at an answer, without the specification: the parts that are written are there."""
    if not d["some"]:
        return False
    y = c["y"] if c["yl"] == 4 else (1900 + c["y"] if c["y"] > 68 else 2000 + c["y"])
    return ((not c["yl"] or d["y"] == y) and (not c["m"] or d["mo"] == c["m"]) and (not c["d"] or d["d"] == c["d"]) and
            (d["h"], d["mi"], d["s"]) == (c["h"], c["mi"], c["s"]))
