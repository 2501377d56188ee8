"""C13: Unix timestamps denote their instant."""
from vlib import *

HOSTS = [("UTC", dict(rule="fixed", std=0)), ("Asia/Tokyo", dict(rule="fixed", std=32400)),
         ("America/New_York", dict(rule="us", std=-18000)), ("Europe/Berlin", dict(rule="eu", std=3600))]


def rnd_number(r, n):
    if n >= 10 and r.random() < 0.5:        # numbers that start like the present, and borders
        head = r.choice(["%010d" % r.randint(0, 2 ** 31), "%010d" % r.randint(1200000000, 2100000000), "2147483647", "2147483648",
                         "4294967295", "4294967296", "0000000000", "0000000001", "9999999999",
                         "%010d" % (86400 * r.randint(0, 40000)), "%010d" % (86400 * r.randint(1, 40000) - 1),
                         "%010d" % (1194000000 + 3600 * r.randint(0, 230000) - r.randint(0, 1))])
        tail = r.choice(["", "000000", "999999", "000001", "500000"]) if n > 10 else ""
        tail = (tail + "".join(str(r.randint(0, 9)) for _ in range(n)))[:n - 10]
        return head + tail
    return "".join(str(r.randint(0, 9)) for _ in range(n))


def one(r):
    n = r.choice([10] * 5 + [13] * 4 + [16] * 4 + [9, 11, 12, 14, 15, 17, 18, 19, 20, 25])
    s = rnd_number(r, n)
    neg = r.random() < 0.3
    x = dict(ds=[int(c) for c in s], neg=neg, pure=True)
    text = ("-" if neg else "") + s
    if r.random() < 0.1:
        x["pure"] = False
        text = r.choice(["a" + text, text + "a", "x " + text, text + "-", "+" + text, "--" + s, text + ":00", text + "/1"])
    elif r.random() < 0.15:
        text = r.choice([" " + text, text + " ", "\t" + text])
    pt = r.choice([[0], [0], [0, 1], [1, 0], [1], [2, 1, 0]])
    cfg = dict(langs=r.choice([["en"], ["en"], ["fr"], ["ru", "de"], []]), now=[2020, 2, 29, 12, 0, 0, 0], rtp=r.random() < 0.5,
               order=r.choice(["DMY", "MDY", "YMD"]))
    if r.random() < 0.3:
        cfg["tz"] = dict(name="F", off=r.choice([3600, -36000]))
    if not cfg["langs"] and not x["pure"]:
        cfg["langs"] = ["en"]
    if pt == [0] and x["pure"] and n in (10, 13, 16) and not neg and r.random() < 0.5:
        pt = []
    return dict(op="parse", text=text, ptypes=pt, cfg=cfg), dict(x=x, pos=not pt or 0 in pt, neg=1 in pt, rtp=cfg["rtp"])


def check(rep):
    drv = build_driver()
    rep.model("MCTimestamp")
    r = rng("c13")
    for host, z in HOSTS:
        cases = []
        for _ in range(12000 if rep.thorough else 2000):
            req, rec = one(r)
            cases.append((req, dict(rec, z=z)))
        judge(rep, drv, "TraceTimestamp", cases, env=dict(TZ=host),
              key=lambda o: dict(o={k: o["dt"][k] for k in ("some", "ed", "es", "ns", "off", "per")}))
