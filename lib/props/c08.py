"""C08: the preferred side of the reference is honoured."""
from vlib import *
import absgen
from props import c07

TZ = [("UTC", 0), ("+05:30", 19800), ("-0500", -18000), ("EST", -18000), ("UTC+3", 10800), ("GMT-8", -28800),
      ("+14:00", 50400), ("JST", 32400), ("PST", -28800), ("-09:30", -34200)]


def build(r, n):
    cases = []
    while len(cases) < n:
        shape = r.choice(["t"] * 5 + ["w"] * 3 + ["dm"] * 5 + ["m"] * 4 + ["dmy2"] * 3 + ["wdm"])
        c, g, text, order = absgen.rnd_case(r, shape)
        g = c07.reference(r, g, src=r.choice([1, 1, 2, 2, 0]))
        noff = r.choice([0, 0, 3600, -18000, 20700, 50400, -43200])
        zoff, q = noff, None
        q = c07.request(c, g, text, order, noff)
        k = r.random()
        if c["t"] and k < 0.45:
            z, zoff = r.choice(TZ)
            text += " " + z
            q["text"] = text
            if r.random() < 0.3:
                q["cfg"]["tz"] = dict(name="D", off=r.choice([7200, -36000]))
        elif k < 0.65:
            zoff = r.choice([0, 7200, -36000, 46800, -39600, 19800])
            q["cfg"]["tz"] = dict(name="D", off=zoff)
        g["shift"] = noff - zoff
        cases.append((c, g, text, q, zoff))
    return cases


def check(rep):
    r = rng("c08")
    drv = build_driver()
    rep.model("MCAbsolute", "MCAbsoluteBig" if rep.thorough else "MCAbsolute", timeout=850)
    c07.judge(rep, drv, build(r, 60000 if rep.thorough else 14000))
