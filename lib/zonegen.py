"""Time zones as a text writes them."""
import json, os
_Z = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "zonenames.json")))
NAMES, OFFSETS = _Z["names"], _Z["offsets"]
COMMON = ["UTC", "GMT", "EST", "EDT", "PST", "PDT", "CST", "CET", "CEST", "MSK", "JST", "BST", "IST", "Z", "AEST"]
COMMON = [n for n in COMMON if n in NAMES]
NOZONE = dict(k="none", n="", sg=1, h=0, m=0)


def digits(off):
    return dict(k="digits", n="", sg=-1 if off < 0 else 1, h=abs(off) // 3600, m=abs(off) % 3600 // 60)


def rnd_digits(r):
    """(record, text, bare): bare says that the text has no UTC or GMT in it."""
    x = digits(r.choice(OFFSETS))
    sg = "-" if x["sg"] < 0 or (x["h"] + x["m"] == 0 and r.random() < 0.3) else "+"
    hh, h, mm = "%02d" % x["h"], "%d" % x["h"], "%02d" % x["m"]
    U = r.choice(["UTC", "GMT"])
    forms = [U + sg + hh + ":" + mm, U + sg + hh + mm, sg + hh + ":" + mm, sg + hh + ":" + mm, sg + hh + mm]
    if x["h"] < 10:
        forms.append(U + sg + h + ":" + mm)
    if x["m"] == 0:
        forms += [U + sg + h, "UTC" + sg + hh]
    t = r.choice(forms)
    if r.random() < 0.15:
        t = t.lower()
    return x, t, t[0] in "+-"


def rnd_name(r):
    n = r.choice(COMMON) if r.random() < 0.4 else r.choice(NAMES)
    return dict(k="name", n=n, sg=1, h=0, m=0), r.choice([n, n, n, n.lower(), n.capitalize()])


def offset_text(r):
    """(text, offset in seconds), to stand at the end of a text."""
    x, t, _ = rnd_digits(r)
    return t, x["sg"] * (x["h"] * 3600 + x["m"] * 60)
