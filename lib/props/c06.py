"""C06: parser types select and order the methods."""
from vlib import *
import itertools
import absgen

KEYS = ("some", "y", "mo", "d", "h", "mi", "s", "ns", "off", "per", "loc")
CORPUS = json.load(open(os.path.join(VERIF, "lib", "corpus.json")))
ORDERED = [list(p) for k in range(0, 7) for p in itertools.permutations(range(6), k)]      # all 1957 ordered selections
NOW = [2021, 6, 15, 12, 30, 0, 0]
TS, NTS, REL, FMT, ABS, NOSP = range(6)


def view(o):
    return {k: o["dt"][k] for k in KEYS}


def rnd_text(r):
    """(text, formats, languages, methods that have to understand it, methods that cannot, a format matches the raw text)"""
    y, m = r.randint(1950, 2060), r.randint(1, 12)
    d = r.randint(1, absgen.dim(y, m))
    h, mi = r.randint(0, 23), r.randint(0, 59)
    M = absgen.MON[m - 1]
    k = r.randrange(13)
    en = ["en"]
    if k == 0:
        return "%010d%s" % (r.randint(10 ** 9, 2 * 10 ** 9), r.choice(["", "123", "000000"])), [], en, [TS], [NTS, REL], False
    if k == 1:
        return "-%010d" % r.randint(10 ** 9, 2 * 10 ** 9), [], en, [NTS], [TS, REL, NOSP], False
    if k == 2:
        return "%d %s ago" % (r.randint(2, 40), r.choice(["days", "weeks", "months", "hours"])), [], en, [REL], [TS, NTS, NOSP], False
    if k == 3:
        return "%d %s %d" % (d, M, y), [], en, [ABS], [TS, NTS, REL, NOSP], False
    if k == 4:
        return "%04d%02d%02d" % (y, m, d), [], en, [NOSP], [TS, NTS, REL], False
    if k == 5:       # a run of digits that is a custom format, too
        return "%02d%02d%02d" % (y % 100, m, d), ["060102"], en, [], [TS, NTS, REL], True
    if k == 6:       # names in another language: the format reads the translation, and so does the date in parts
        import props.c09 as c09
        return "%d %s %d" % (d, c09.MONTHS["es"][m - 1], y), ["2 January 2006"], ["es"], [FMT, ABS], [TS, NTS, REL, NOSP], False
    if k == 7:       # day and month swapped by the format
        d = r.randint(1, 12)
        return "%02d %s %04d" % (d, r.choice(["Januar", "Februar", "März", "Mai", "Juni", "Juli", "Oktober", "Dezember"]), y), ["06 January 2006", "02 January 2006"], ["de"], [FMT, ABS], [TS, NTS], False
    if k == 8:
        return "%s %d:%02d" % (r.choice(["yesterday", "tomorrow", "today", "2 days ago"]), h, mi), [], en, [REL], [TS, NTS, NOSP], False
    if k == 9:
        return r.choice(["%d" % y, "%02d%02d" % (m, d), "%d%02d" % (y, m), "%d:%02d" % (h, mi), "%02d%02d%02d" % (d, m, y % 100), "%d" % d]), [], \
            r.choice([en, ["en", "de"], ["fr"]]), [], [TS, NTS], False
    if k == 10:
        return "%04d-%02d-%02d" % (y, m, d), r.choice([[], ["2006-01-02"], ["2006-02-01"]]), en, [ABS], [TS, NTS, REL], None
    if k == 11:
        return r.choice(["10/11/12", "mart 2015", "5 mai 2014", "mars", "1 h", "10 dec", "12.10", "3 min"]), [], r.choice([["tr", "sr"], ["fr", "de", "nl"], ["en", "fr"], ["ro", "fr"]]), [], [TS, NTS, NOSP], False
    return r.choice(CORPUS["dates"])["t"], [], None, [], [], False


def check(rep):
    drv = build_driver()
    rep.model("MCMethods")
    r = rng("c06")
    texts = [rnd_text(r) for _ in range(1200 if rep.thorough else 250)]
    loc_of = {c["t"]: c["loc"] for c in CORPUS["dates"]}
    base = []
    for t, f, langs, sure, never, raw in texts:
        if langs is None:
            langs = [loc_of[t]] + ([r.choice(["en", "fr"])] if r.random() < 0.5 else [])
            langs = list(dict.fromkeys(langs))
        if raw is None:           # the format may or may not fit the numbers
            raw = "2006-01-02" in f
            if "2006-02-01" in f:
                mm, dd = int(t[5:7]), int(t[8:10])
                raw = dd <= 12 and mm <= absgen.dim(int(t[:4]), dd)
        base.append((t, f, langs, sure, never, raw))
    cfg = lambda langs: dict(now=NOW, locales=langs, given=True)
    qs = [(t, f, l, m) for t, f, langs, _, _, raw in base for l in langs for m in range(6)]
    table = {}
    for (t, f, l, m), o in zip(qs, run_seq(drv, [dict(op="parse", text=t, formats=f, ptypes=[m], cfg=cfg([l])) for t, f, l, m in qs])):
        table[(t, tuple(f), l, m)] = view(o)
    cases = []
    for t, f, langs, sure, never, raw in base:
        read = [[table[(t, tuple(f), l, m)] for m in range(6)] for l in langs]
        picks = [r.choice(ORDERED) for _ in range(25)] + [[m] for m in range(6)] + [[], list(range(6)), [5, 4, 3, 2, 1, 0]]
        picks += [[r.randrange(6) for _ in range(r.randint(2, 8))] for _ in range(5)]
        if r.random() < 0.15:
            picks.append([r.randrange(6) for _ in range(r.randint(0, 3))] + [r.choice([6, 7, 100, 255])])
        if rep.thorough and r.random() < 0.1:
            picks += ORDERED
        for p in picks:
            cases.append((dict(op="parse", text=t, formats=f, ptypes=p, cfg=cfg(langs)),
                          dict(types=p, read=read, raw=raw, alone=read[0][0], sure=[] if raw else sure, never=[] if raw else never)))
    judge(rep, drv, "TraceMethods", cases, keep=("text", "ptypes"), key=lambda o: dict(o=view(o), err=o["iserr"]))
    rep.extra["texts that several methods understand"] = sum(
        1 for t, f, langs, *_ in base if sum(table[(t, tuple(f), langs[0], m)]["some"] for m in range(6)) > 1)
