"""C24: the vocabulary of every language."""
from vlib import *
import datetime
import relgen
import laygen

ROWS = [e for f in ("vocabulary.json", "words.json") for e in json.load(open(os.path.join(VERIF, "spec", f), encoding="utf-8"))]
REGIONS = json.load(open(os.path.join(VERIF, "spec", "regions.json")))
OWN = {("fr-MA", "mar.")}
HOMOGRAPHS = json.load(open(os.path.join(VERIF, "spec", "homographs.json"), encoding="utf-8"))
LAYOUTS = json.load(open(os.path.join(VERIF, "spec", "layouts.json"), encoding="utf-8"))
BY = {}
for _i, _e in enumerate(ROWS):
    BY.setdefault(_e["loc"], []).append(_i)


def where(at):
    return dict(locales=[at]) if at in REGIONS else dict(langs=[at])


def case(r, i, at, form=None):
    e = ROWS[i]
    rec = dict(i=i + 1, e=dict(loc=e["loc"], a=e["a"], b=e["b"]), at=at, k=0, d=0, y=0, h=0, mi=0, today=0, pem=False,
               now=dict(ed=0, es=0, ns=0), z=dict(rule="fixed", std=0))
    cfg = dict(where(at), order="DMY", src=r.choice([0, 0, 1, 2]))
    if e["k"] == "month":
        rec.update(d=r.choice([0, r.randint(1, 28), r.randint(13, 28), 15]) if form is None else form, y=r.randint(1950, 2049))
        text = ("%d %s %d" % (rec["d"], e["a"], rec["y"])) if rec["d"] else "%s %d" % (e["a"], rec["y"])
        cfg["now"] = [r.randint(2010, 2030), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), 0, 0, 0]
        ptypes = [4]
    elif e["k"] == "day":
        x = datetime.date(2015, 1, 1) + datetime.timedelta(days=r.randint(0, 5000))
        rec["today"] = x.toordinal() - relgen.EPOCH
        cfg["now"] = [x.year, x.month, x.day, r.randint(0, 23), r.randint(0, 59), 0, 0]
        text, ptypes = e["a"], [4]
    elif e["k"] == "half":
        x = datetime.date(2015, 1, 1) + datetime.timedelta(days=r.randint(0, 5000))
        rec.update(today=x.toordinal() - relgen.EPOCH, h=r.choice([12, 12, r.randint(1, 12), r.randint(1, 12)]), mi=r.choice([0, 59, r.randint(0, 59)]))
        cfg.update(now=[x.year, x.month, x.day, r.randint(0, 23), r.randint(0, 59), 0, 0], order="YMD", src=0)
        text, ptypes = "%d:%02d %s" % (rec["h"], rec["mi"], e["a"]), [4]
        if r.random() < 0.5:                             # the day is written
            text = "%d-%02d-%02d %s" % (x.year, x.month, x.day, text)
            cfg["now"][0] = r.randint(2010, 2030)
            cfg["now"][2] = min(cfg["now"][2], 28)
    else:
        g, nz = relgen.rnd_instant(r), relgen.rnd_zone(r, 0)
        rec["k"] = r.choice(e["ks"])
        rec["now"] = relgen.instant(g)
        rec["pem"] = r.random() < 0.3
        rec["z"] = relgen.spec_zone(nz)
        cfg.update(now=relgen.now_in(g, nz), nowzone=relgen.driver_zone(nz), pem=rec["pem"])
        if r.random() < 0.3:
            z = relgen.rnd_zone(r, 0 if e["u"] in ("year", "month") else 0.5)
            cfg["tz"] = relgen.driver_zone(z)
            rec["z"] = relgen.spec_zone(z)
        text, ptypes = e["a"] + (str(rec["k"]) if e["k"] == "rel" else "") + e["b"], [2]
    u = r.random()
    if u < 0.05:
        text = "  " + text + " "
    return dict(op="parse", text=text, ptypes=ptypes, cfg=cfg), rec


def layout(r, i, n=None):
    row = LAYOUTS["rows"][i]
    e = dict(loc=row["loc"], lay=[(p["k"], p["v"]) for p in LAYOUTS["lays"][row["l"] - 1]],
             **{k.upper(): LAYOUTS["words"][row[k] - 1] if row[k] else [] for k in "mwp"})
    q, x, g = laygen.ask(r, e, n)
    return q, dict(i=i + 1, at=row["loc"], x=x, g=g, text=q["text"], order=q["cfg"]["order"])


def layouts(rep, drv, r):
    rows = LAYOUTS["rows"]
    cases = []
    for i in range(len(rows)):
        if rep.thorough:
            cases += [layout(r, i, n) for n in range(8)] + [layout(r, i), layout(r, i)]
        else:
            cases.append(layout(r, i))
    rep.extra["layouts"] = dict(rows=len(rows), locales=len({x["loc"] for x in rows}), questions=len(cases))
    judge(rep, drv, "TraceLayouts", cases)


def check(rep):
    rep.model("MCLayouts")
    rep.model("MCVocabulary")
    drv = build_driver()
    r = rng("c24")
    cases = []
    for at in sorted(BY):                                # what every language says itself
        for i in BY[at]:
            for form in ([0, 15, None] if rep.thorough and ROWS[i]["k"] == "month" else [None] * (3 if rep.thorough else 1)):
                cases.append(case(r, i, at, form))
    for at in sorted(REGIONS):                           # and its regions after it
        own = [i for i in BY.get(REGIONS[at], []) if (at, ROWS[i]["a"]) not in OWN]
        for i in own if rep.thorough else r.sample(own, min(len(own), 14)):
            cases.append(case(r, i, at))
    for i, e in enumerate(HOMOGRAPHS):                   # words that differ by their marks alone: always the same question
        cases.append((dict(op="parse", text="15 %s 2014" % e["a"], ptypes=[4], cfg=dict(where(e["loc"]), order="DMY", now=[2020, 2, 3, 0, 0, 0, 0])),
                      dict(i=len(ROWS) + i + 1, e=dict(loc=e["loc"], a=e["a"], b=e["b"]), at=e["loc"], k=0, d=15, y=2014, h=0, mi=0, today=0, pem=False,
                           now=dict(ed=0, es=0, ns=0), z=dict(rule="fixed", std=0))))
    rep.extra["locales"] = len({rec["at"] for _, rec in cases})
    judge(rep, drv, "TraceVocabulary", cases, key=lambda o: dict(o={k: o["dt"][k] for k in (
        "some", "y", "mo", "d", "h", "mi", "s", "ed", "es", "ns", "off", "per")}))
    layouts(rep, drv, r)
