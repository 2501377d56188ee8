"""C23: invalid configurations are refused."""
from vlib import *
import selgen

TEXT = dict(parse=["5 March 2014 10:00", "2014-03-05", "2 days ago", "1500000000"], search=["we met on 5 March 2014 in Rome", "it was 2 days ago, on 3 April 2015"],
            searchlang=["we met on 5 March 2014 in Rome"], hijri=["12/05/1440", "1/1/1400 10:30"], jalali=["12/05/1390", "1/1/1400 10:30"])
PARTS = ["day", "month", "year", "Day", "MONTH", "yEAr", "DAY"]
NOTPARTS = ["", "days", " day", "day ", "hour", "minute", "date", "d", "months", "YEARS", "day,month", "weekday", "ýear", "dау"]


def call(r, e, what):
    v = dict(dom=r.randrange(3), moy=r.randrange(3), src=r.randrange(3), req=[], types=[], lang="en",
             sel=dict(locales=[], langs=["en"], deflangs=[], region="", given=r.random() < 0.5, prev=False, detect=[]))
    sel = v["sel"]
    strong = True
    if what in ("dom", "moy", "src"):
        v[what] = r.choice([0, 1, 2, 3, 3, 4, 128, 254, 255, r.randrange(256)])
    elif what == "req":
        v["req"] = [r.choice(PARTS) for _ in range(r.randint(0, 3))]
        if r.random() < 0.6:
            v["req"].insert(r.randrange(len(v["req"]) + 1), r.choice(NOTPARTS))
    elif what == "types":
        v["types"] = [r.randrange(6) for _ in range(r.randint(0, 4))]
        if r.random() < 0.6:
            v["types"].insert(r.randrange(len(v["types"]) + 1), r.choice([6, 7, 100, 255]))
        strong = False
    elif what == "lang":
        v["lang"] = r.choice(["en", "en-AU", "xx", "", "EN", "en-XX", "english", "en ", "en_US", "en-au"])
    elif what == "names":
        c = selgen.selection(r)
        bad = ["xx", "en-XX", "EN", "", "en-us", "en ", "zz-ZZ", "und", "en_US", "e", "az-latn"]
        known = list(selgen.LOCALES)
        if r.random() < 0.5:
            c["locales"] = [r.choice(known) for _ in range(r.randint(1, 4))]
            if r.random() < 0.5:
                l = r.choice(c["locales"])
                c["locales"].append(r.choice([x for x in known if selgen.LOCALES[x]["lang"] == selgen.LOCALES[l]["lang"]]))
            if r.random() < 0.4:
                c["locales"].insert(r.randrange(len(c["locales"]) + 1), r.choice(bad))
        elif r.random() < 0.8:
            c["locales"] = []
            c["langs"] = [r.choice(selgen.LANGS) for _ in range(r.randint(0, 4))]
            if r.random() < 0.5:
                c["langs"].insert(r.randrange(len(c["langs"]) + 1), r.choice(bad + ["en-AU", "fr-BE"]))
        sel.update(c)
        if not sel["langs"] and not sel["locales"] and r.random() < 0.6:
            sel["detect"] = [r.choice(selgen.LANGS + ["xx"] * 60) for _ in range(r.randint(0, 3))]
        strong = False
    elif what == "all":
        v["dom"], v["moy"], v["src"] = [r.choice([0, 1, 2, 2, 2, 3]) for _ in range(3)]
        v["req"] = [r.choice(PARTS + ["hour"])] if r.random() < 0.3 else []
        v["types"] = [r.choice([0, 1, 2, 3, 4, 5, 4, 6]) for _ in range(r.randint(0, 6))]
        strong = False
    t = r.choice(TEXT[e])
    if v["req"] and e in ("parse", "search"):
        t = TEXT[e][0]
    cfg = dict(now=[2020, 6, 15, 12, 0, 0, 0], langs=sel["langs"], locales=sel["locales"], deflangs=sel["deflangs"], region=sel["region"],
               given=sel["given"], dom=v["dom"], moy=v["moy"], src=v["src"], req=v["req"], rtp=r.random() < 0.5, pem=r.random() < 0.5,
               strict=t in ("5 March 2014 10:00", "2014-03-05") and r.random() < 0.3, skip=r.choice([[], [], ["x"]]))
    if r.random() < 0.3:
        cfg["tz"] = dict(name="F", off=3600)
    q = dict(op=e, text=t, ptypes=v["types"], cfg=cfg, lang=v["lang"], sess="")
    if sel["detect"]:
        q["detect"] = sel["detect"]
    return q, dict(e=e, v=dict(v, req=[list(w) for w in v["req"]]), strong=strong)


def check(rep):
    drv = build_driver()
    rep.model("MCValidity")
    r = rng("c23")
    cases = []
    for e in TEXT:
        whats = ["dom", "moy", "src", "req", "all"] + (["types", "types"] if e in ("parse", "search", "searchlang") else []) \
            + (["names"] * 3 if e in ("parse", "search") else []) + (["lang"] if e == "searchlang" else [])
        for _ in range(6000 if rep.thorough else 1000):
            cases.append(call(r, e, r.choice(whats)))
        for what in ("dom", "moy", "src"):       # every value of every preference
            for x in range(256):
                q, rec = call(r, e, "none")
                q["cfg"][what] = rec["v"][what] = x
                cases.append((q, rec))
    judge(rep, drv, "TraceValidity", cases, keep=("op", "text", "cfg"),
          key=lambda o: dict(err=o["iserr"], some=o["dt"]["some"] or bool(o["found"])))
