"""C27: words to skip."""
from vlib import *
import selgen
from props.c26 import plain, fold, COMPACT, OTHER

ROWS = json.load(open(os.path.join(VERIF, "spec", "vocabulary.json"), encoding="utf-8"))
WORDS = {}
for _e in ROWS:
    _l = selgen.LOCALES[_e["loc"]]["lang"]
    if _e["k"] in ("month", "day") and _e["loc"] == _l and _l not in COMPACT and plain(_e["a"]):
        WORDS.setdefault(_l, {}).setdefault(_e["k"], set()).add((_e["a"], _e["v"]))
LANGS = sorted(l for l in WORDS if len(WORDS[l]) == 2)
BIG = [l for l in selgen.POOL if l in LANGS]
T = [l for l in LANGS if l not in ("da", "et", "fi", "fo", "nb", "sv")]            # where "t" means nothing (there: hours)
NOW = [2012, 11, 13, 10, 20, 30, 0]


def noise(r):
    """A word that no language knows, and no zone is called."""
    letters = r.choice(["qxzwkj", "qxzwkj", "жщцфч"])
    return "".join(r.choice(letters) for _ in range(r.randint(5, 8)))


def case(r):
    l = r.choice(BIG if r.random() < 0.6 else LANGS)
    k = r.random()
    use_t = r.random() < 0.15
    if use_t:
        l = r.choice(T)
    month, (day, n) = r.choice(sorted(WORDS[l]["month"]))[0], r.choice(sorted(WORDS[l]["day"]))
    d, y, clock = str(r.randint(1, 28)), str(r.randint(1950, 2040)), "%02d:%02d" % (r.randrange(24), r.randrange(60))
    sure, known = True, set()
    if k < 0.45:
        s = [d, month, y]
    elif k < 0.6:
        s = [d, month, y, clock]
    elif k < 0.75:
        s, known, sure = [day, d, month, y] + ([clock] if r.random() < 0.5 else []), {day}, False
    elif k < 0.83:
        s, sure = ["%s-%02d-%02d" % (y, r.randint(1, 12), int(d)), clock], True
    elif k < 0.9 and l == "en":
        s = r.choice([["2", "days", "ago"], ["in", "3", "weeks"], ["yesterday"], ["5", "hours", "ago"], ["10:30", "pm"], ["March", "5", "2014", "10:30", "am"]])
    elif k < 0.95:
        s, sure = [clock], True
    else:
        s, sure = [month, y], False
    items = [dict(k="known" if w in known else "part", w=w) for w in s]
    words = [noise(r) for _ in range(3)] + (["t"] * 3 if use_t else [])
    for _ in range(r.choice([0, 1, 1, 1, 1, 2, 2, 3])):
        i = r.randint(0, len(items))
        items.insert(i, dict(k="noise", w=r.choice(words)))
    runs, run = [], []
    for x in items + [dict(k="", w="")]:
        if x["k"] == "noise":
            run.append(x["w"])
        elif run:
            runs.append(" ".join(run))
            run = []
    lst = []
    for x in runs:
        if r.random() < 0.85:
            lst.append(x)
    if use_t and r.random() < 0.5:
        lst = []
    if known and r.random() < 0.7:
        lst.append(day.lower())
        items = [dict(x, w=x["w"].lower()) if x["k"] == "known" else x for x in items]
    if lst or r.random() < 0.3:
        lst += [r.choice(["zzz", "um", "jqx", "t"]) for _ in range(r.randint(0, 2))]
    r.shuffle(lst)
    langs = [l]
    cfg = dict(langs=langs, now=NOW, skip=lst, order="DMY")
    if r.random() < 0.1:
        cfg["locales"], cfg["langs"] = [l], []
    return items, lst, cfg, sure and len(langs) == 1


def left(items, lst):
    out, run = [], []
    have = set(lst) if lst else {"t"}
    for x in items + [dict(k="", w="")]:
        if x["k"] == "noise":
            run.append(x["w"])
            continue
        if run and " ".join(run) not in have:
            out.append(" ".join(run))
        run = []
        if x["k"] == "part" or x["k"] == "known" and x["w"] not in have:
            out.append(x["w"])
    return " ".join(out)


def check(rep):
    rep.model("MCSkipping", cfg="MCSkippingBig" if rep.thorough else None)
    drv = build_driver()
    r = rng("c27")
    cases = [case(r) for _ in range(120000 if rep.thorough else 14000)]
    space = [r.choice([" ", " ", " ", "  "]) for _ in cases]
    up = [r.random() < 0.15 for _ in cases]
    texts = [(lambda t: t.upper() if u and len(t.upper()) == len(t) and t.upper().lower() == t.lower() else t)(sp.join(x["w"] for x in c[0])) for c, sp, u in zip(cases, space, up)]
    rest = [left(c[0], c[1]) for c in cases]
    got = run_seq(drv, [dict(op="parse", text=t, cfg=c[2]) for t, c in zip(texts, cases)])
    alone = run_seq(drv, [dict(op="parse", text=t, cfg=c[2]) for t, c in zip(rest, cases)])
    recs = [dict(id=i, s=c[0], list=c[1], rest=rest[i], alone=alone[i]["dt"], got=got[i]["dt"], sure=c[3]) for i, c in enumerate(cases)]
    for rec, why in rep.conform("TraceSkipping", recs):
        i = rec["id"]
        rep.violation("%r in %r, skipping %r: %s" % (texts[i], cases[i][2]["langs"] or cases[i][2]["locales"], rec["list"], why),
                      dict(request=dict(op="parse", text=texts[i], cfg=cases[i][2]), record=rec, spec=why))
    rep.sample(*[dict(text=texts[i], list=cases[i][1], answer=got[i]["dt"]) for i in (0, len(cases) // 2)])
