"""Which locales read which texts, and histories of calls with locale selections."""
from vlib import *
import json

LOCALES = json.load(open(os.path.join(VERIF, "spec", "locales.json")))
CORPUS = json.load(open(os.path.join(VERIF, "lib", "corpus.json")))
LANGS = [l for l in LOCALES if LOCALES[l]["lang"] == l]
# several of these languages read the texts below
POOL = ["en", "fr", "es", "de", "nl", "it", "pt", "ru", "uk", "bg", "tr", "pl", "cs", "sv", "da", "nb", "fi", "ro", "hr", "zh", "ja", "ar"]
REGIONS = ["", "", "", "", "BE", "CH", "AU", "CA", "001", "MX", "XX"]
SHARED = ["10/11/12", "2015-03-04", "12:30", "mars 2015", "mart 2015", "5 mai 2014", "juni 2014", "dec 2014", "3 sept 2011", "10 april", "maj 2013",
          "13.04.2015", "04.13.2015", "november 2012", "august 5", "1 min", "2 h", "20140203", "1500000000", "vor 2 tagen", "hace 1 hora", "il y a 3 jours",
          "2 days ago", "вчера", "gisteren", "hier", "ieri", "5 марта 2014", "15 mar 2012 10:00", "lunes", "10 juin 2012", "2014年3月5日", "1 год",
          "no date here", "zzz 99", "31/31/31", "", "12 jan 2010 um 10", "1 januar", "7 janvier 2001", "7 january 2001", "3 февруари 2011", "sabado"]
NOW = [2012, 11, 13, 10, 20, 30, 0]
KEYS = ("some", "y", "mo", "d", "h", "mi", "s", "ns", "off", "per", "loc")
_empty = dict(dt=EMPTY_DT)


def view(o):
    return {k: o["dt"][k] for k in KEYS}


class Readers:
    """For each text the locales that apply and read it, and those that read it when they do not have to apply."""

    def __init__(self, drv, texts, names, deflangs):
        self.texts = texts
        self.can = {t: {} for t in texts}
        self.forced = {t: {} for t in texts}
        q = [(t, l) for t in texts for l in names]
        for (t, l), o in zip(q, run_seq(drv, [dict(op="parse", text=t, cfg=dict(now=NOW, locales=[l])) for t, l in q])):
            if o["dt"]["some"]:
                self.can[t][l] = view(o)
        # a locale that does not read the text, so that the default is reached
        idle = {t: next(l for l in ("ii", "dz", "chr", "en") if l not in self.can[t]) if t and len(self.can[t]) < 400 else None for t in texts}
        q = [(t, d, r) for t in texts if idle[t] for d in deflangs for r in sorted(set(REGIONS)) if (d + ("-" + r if r else "")) in LOCALES]
        for (t, d, r), o in zip(q, run_seq(drv, [dict(op="parse", text=t, cfg=dict(now=NOW, locales=[idle[t]], deflangs=[d], region=r)) for t, d, r in q])):
            if o["dt"]["some"]:
                self.forced[t][o["dt"]["loc"]] = view(o)
        for t in texts:                      # who reads it of its own accord reads it as a default, too
            for l, v in self.can[t].items():
                self.forced[t].setdefault(l, v)

    def alone(self, t, loc):
        return self.forced[t].get(loc) or self.can[t].get(loc) or dict(view(_empty), loc="?")


def texts(r, n):
    return SHARED + [c["t"] for c in r.sample(CORPUS["dates"], n) if c["t"] not in SHARED]


def selection(r, pool=POOL):
    """The part of a configuration that selects locales."""
    k = r.random()
    c = dict(locales=[], langs=[], deflangs=[], region=r.choice(REGIONS), given=r.random() < 0.4)
    few = lambda n: [r.choice(pool) for _ in range(r.randint(1, n))]
    if k < 0.25:
        for l in few(4):
            vs = [x for x in LOCALES if LOCALES[x]["lang"] == l]
            c["locales"].append(r.choice(vs) if r.random() < 0.5 else l)
        if r.random() < 0.5:                 # ignored beside locales
            c["langs"] = few(2)
        if r.random() < 0.7:                 # usually without a conflict
            seen = {}
            c["locales"] = [x for x in c["locales"] if seen.setdefault(LOCALES[x]["lang"], x) == x]
    elif k < 0.75:
        c["langs"] = few(5)
    elif k < 0.8:
        c["region"] = ""
    if r.random() < 0.3:
        c["deflangs"] = few(3)
    if r.random() < 0.02:
        c["locales"] = c["locales"] + [r.choice(["xx", "en-XX", "EN", "", "en-us"])]
    elif r.random() < 0.02:
        c["langs"] = c["langs"] + [r.choice(["xx", "en-AU", "EN", "", "fr-BE"])]
    return c


def relevant(c, names, region):
    ls = {LOCALES[x]["lang"] for x in c["locales"] if x in LOCALES} | set(c["langs"]) | set(c["deflangs"]) | set(c["detect"])
    if not c["locales"] and not c["langs"] and not c["detect"]:
        return [x for x in names if x in LANGS or (region and x.endswith("-" + region))]
    return [x for x in names if LOCALES[x]["lang"] in ls]


def call(r, t, rd, c, prev, sess, detect=None, spell_region=True):
    """(request, record) of one call."""
    region = c["region"]
    asked = region
    if region and spell_region and r.random() < 0.3:
        asked = r.choice([region.lower(), " " + region, region + " ", region.title()])
    q = dict(op="parse", text=t, sess=sess, formats=[], cfg=dict(
        now=NOW, locales=c["locales"], langs=c["langs"], deflangs=c["deflangs"], region=asked, given=c["given"], prev=prev))
    if detect is not None:
        q["detect"] = detect
    sc = dict(locales=c["locales"], langs=c["langs"], deflangs=c["deflangs"], region=region, given=c["given"], prev=prev, detect=detect or [])
    rec = dict(c=sc, can=relevant(sc, list(rd.can[t]), region), forced=[x for x in rd.forced[t] if LOCALES[x]["lang"] in c["deflangs"]],
               raw=False, keeps=False)
    return q, rec


def decide(rep, drv, rd, cases):
    """Runs the histories and lets the specification judge them."""
    obs = run_seq(drv, [c[0] for c in cases])
    recs, last = [], None
    for i, ((q, rec), o) in enumerate(zip(cases, obs)):
        rec = dict(rec, id=i, o=view(o), err=o["iserr"], sess=q["sess"])
        rec["alone"] = rd.alone(q["text"], o["dt"]["loc"]) if o["dt"]["some"] else rec["o"]
        recs.append(rec)
        if o["panic"] or o["hang"]:
            rep.violation("no answer: %r" % q["text"], dict(request=q, answer=o))
    recs.sort(key=lambda x: (x["sess"], x["id"]))
    for k, rec in enumerate(recs):
        rec["new"] = k == 0 or recs[k - 1]["sess"] != rec["sess"]
    for rec, why in rep.conform("TraceSelection", recs, shard_key=lambda x: x["sess"]):
        q = cases[rec["id"]][0]
        history = [cases[x["id"]][0] for x in recs if x["sess"] == rec["sess"] and x["id"] < rec["id"]]
        rep.violation("%r answered by %r: %s" % (q["text"], rec["o"]["loc"], why), dict(request=q, history=history[-12:], observed=rec["o"], spec=why))
    rep.sample(*[dict(request=cases[i][0], observed=recs[0]["o"] if i == 0 else view(obs[i])) for i in (0, len(cases) // 2)])
    return obs
