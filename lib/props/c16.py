"""C16: searching."""
from vlib import *
import searchgen as g, questions, selgen, relgen

SKIP = json.load(open(os.path.join(VERIF, "spec", "unsearchable.json"), encoding="utf-8"))
SKIP_ROWS, SKIP_DATES = {tuple(x) for x in SKIP["rows"]}, {tuple(x) for x in SKIP["dates"]}
REWRITTEN = re.compile("later|from now|less than|after|before", re.I)
UTC = dict(TZ="UTC")


def spaced(loc):
    return loc.split("-")[0] not in g.COMPACT


BY = {}
for _e in g.ROWS:
    if spaced(_e["loc"]) and (_e["loc"], _e["a"], _e["b"]) not in SKIP_ROWS:
        BY.setdefault(_e["loc"], []).append(_e)
CORPUS = {}
for _x in g.DATES:
    _l = selgen.LOCALES[_x["loc"]]["lang"]
    if spaced(_l) and (_l, _x["t"]) not in SKIP_DATES and _x["t"][0] not in "+-":
        CORPUS.setdefault(_l, []).append(_x["t"])
LANGS = sorted(set(BY) | set(CORPUS))


def request(r, lang, text, cfg):
    """Search when the language is the only one offered, or SearchWithLanguage."""
    if lang not in g.REGIONS and r.random() < 0.3:
        return dict(op="search", text=text, cfg=dict(cfg, **g.where(lang)))
    return dict(op="searchlang", lang=lang, text=text, cfg=cfg)


def plans(rep, drv, r, n, vocab):
    """Texts made of phrases, with a moment of reference."""
    items = []
    for _ in range(n):
        ps = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            t, rel = g.english(r)
            # what the code rewrites before it reads ("1 week later" as "in 1 week") shifts the words: it is put alone in a text
            if REWRITTEN.search(t) and ps or any(REWRITTEN.search(x[0]) for x in ps):
                continue
            ps.append((t, rel))
        items.append(("en", [p[0] for p in ps], g.ENGLISH))
    for lang in LANGS:
        own = [g.row_phrase(r, e) for e in BY.get(lang, [])] + CORPUS.get(lang, [])
        if not rep.thorough:
            own = r.sample(own, min(len(own), vocab))
        items += [(lang, [p], g.FOREIGN) for p in own]
        months = [e for e in BY.get(lang, []) if e["k"] == "month"]
        for _ in range(6 if rep.thorough else 1):
            if len(months) > 1:
                items.append((lang, [g.row_phrase(r, e) for e in r.sample(months, 2)], g.FOREIGN))
    reqs, cases = [], []
    for lang, ps, words in items:
        cfg = g.config(r)
        text, plan = g.wrap(r, ps, words)
        reqs += [dict(op="parse", text=p, cfg=dict(cfg, **g.where(lang))) for p in ps]
        cases.append((request(r, lang, text, cfg), lang, ps, plan))
    said = iter(run_seq(drv, reqs, env=UTC))
    out = []
    for q, lang, ps, plan in cases:
        alone = [next(said) for _ in ps]
        if not all(a["dt"]["some"] for a in alone):
            continue                             # what Parse does not read is no phrase (a day that no month has, say)
        out.append((q, dict(k="plan", lang=lang, plan=plan, given=True,
                            ph=[dict(t=g.trimmed(p), rel=False, a=[g.date(a["dt"])]) for p, a in zip(ps, alone)])))
    return out


def based(rep, drv, r, n):
    """Texts without a moment of reference: complete dates, and phrases that are understood by them."""
    texts = []
    for _ in range(n):
        cfg = g.config(r, given=False)
        ps = [(g.english(r, whole=True)[0], False)]
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < 0.3:
                ps.append((g.english(r, whole=True)[0], False))
            elif k < 0.8:
                ps.append((r.choice(["yesterday", "tomorrow", "3 days ago", "in 2 weeks", "5 months ago", "in 1 year", "day before yesterday", "in 36 hours",
                                     "last week", "in 10 days", "today", "last month", "in 5 hours"]), True))
            else:
                ps.append((r.choice(["10:15", "May 5", "Friday", "12 October", "Sunday"]), False))
                break
        texts.append((cfg, ps))
    # what Parse says of each phrase with each base
    said = [[[None] * (len(ps) + 1) for _ in ps] for _, ps in texts]
    real = dict(now=[2020, 1, 1, 0, 0, 0, 0])    # complete dates do not depend on it

    def ask(todo):
        obs = run_seq(drv, [dict(op="parse", text=texts[i][1][j][0], cfg=dict(texts[i][0], langs=["en"], **base)) for i, j, b, base in todo], env=UTC)
        for (i, j, b, _), o in zip(todo, obs):
            said[i][j][b] = g.date(o["dt"])

    ask([(i, j, 0, real) for i, (_, ps) in enumerate(texts) for j in range(len(ps))])
    todo = []
    for i, (_, ps) in enumerate(texts):
        for b in range(len(ps)):
            if ps[b][1] or not said[i][b][0]["some"] or b and len(ps[b][0]) < 8:
                continue
            d = said[i][b][0]
            base = dict(now=[d[k] for k in ("y", "mo", "d", "h", "mi", "s", "ns")], nowzone=dict(name="F", off=d["off"]))
            todo += [(i, j, b + 1, base) for j in range(b + 1, len(ps))]
    ask(todo)
    out = []
    for i, (cfg, ps) in enumerate(texts):
        if not all(a[0]["some"] for a in said[i]):
            continue
        text, plan = g.wrap(r, [p[0] for p in ps], g.ENGLISH)
        out.append((dict(op="searchlang", lang="en", text=text, cfg=cfg),
                    dict(k="plan", lang="en", plan=plan, given=False,
                         ph=[dict(t=g.trimmed(t), rel=rel, a=[said[i][j][b] or said[i][j][0] for b in range(j + 1)]) for j, (t, rel) in enumerate(ps)])))
    return out


def loose(r):
    """Any text, with its language."""
    if r.random() < 0.4:
        return "en", questions.prose(r)
    l = r.choice(sorted(CORPUS))
    parts = []
    for _ in range(r.randint(1, 4)):
        parts += [r.choice(g.FOREIGN + ["", "and", "de"]), r.choice(CORPUS[l])]
    return l, r.choice([" ", ", ", " - ", "\n"]).join(parts)


def laws(rep, drv, r, n):
    """Questions about any text whose answers have to agree with each other."""
    kinds, reqs = [], []
    for _ in range(n):
        l, t = loose(r)
        cfg = g.config(r)
        w = r.choice(g.FOREIGN)

        def q(text):
            return dict(op="searchlang", lang=l, text=text, cfg=cfg)
        k = r.randrange(5)
        if k == 0:                               # two texts
            _, t2 = (l, r.choice(CORPUS[l])) if l in CORPUS and r.random() < 0.7 else (l, r.choice(questions.CORPUS["prose"]))
            qs = [q(t + " " + w + "\n" + t2), q(t + " " + w), q(t2)]
        elif k == 1:                             # words before it
            qs = [q(r.choice([w + "\n", "\n", w + " " + w + "\n\n"]) + t), q(t)]
        elif k == 2 and t and not t.rstrip()[-1:].isdigit():      # words after it
            qs = [q(t + r.choice([" " + w, "\n" + w, "\n", "  "])), q(t)]
        elif k == 3:                             # more space
            qs = [q(re.sub(" ", lambda m: r.choice(["  ", " ", "   "]), t)), q(t)]
        else:                                    # Search and SearchWithLanguage
            ls = list(dict.fromkeys([l] + [r.choice(selgen.POOL) for _ in range(r.randint(0, 3))]))
            r.shuffle(ls)
            qs = [dict(op="search", text=t, cfg=dict(cfg, langs=ls if r.random() < 0.9 else []))]
        kinds.append((k if len(qs) > 1 else 4, l, qs))
        reqs += qs
    said = run_seq(drv, reqs, env=UTC)
    out, more, i = [], [], 0
    for k, l, qs in kinds:
        o = said[i:i + len(qs)]
        i += len(qs)
        if k == 4:
            lang = o[0]["lang"]
            more.append((qs[0], dict(k="lang", lang=lang, among=qs[0]["cfg"]["langs"]), dict(op="searchlang", lang=lang or "en", text=qs[0]["text"], cfg=qs[0]["cfg"]), bool(lang)))
        else:
            out.append((qs[0], dict(k="law", lang=l, parts=[g.matches(x["found"]) for x in o[1:]])))
    for (q, rec, _, ok), o in zip(more, run_seq(drv, [m[2] for m in more], env=UTC)):
        if ok:
            out.append((q, dict(rec, parts=[g.matches(o["found"])])))
        else:                                    # no language fits: nothing is found
            out.append((q, dict(rec, among=[], parts=[])))
    return out


def anything(rep, r, n):
    out = []
    for _ in range(n):
        l, t = loose(r)
        out.append((dict(op="searchlang", lang=l, text=t, cfg=g.config(r)), dict(k="any", lang=l, text=g.letters(t))))
    return out


def silence(r, n):
    """Prose in which there is no date."""
    out = []
    for _ in range(n):
        words = r.choice([g.ENGLISH, g.FOREIGN])
        l = "en" if words is g.ENGLISH else r.choice(LANGS)
        text, plan = g.wrap(r, [], words)
        text = " ".join(r.choice(words) + r.choice(["", "", ",", ".", "!"]) for _ in range(r.randint(1, 12)))
        out.append((request(r, l, text, g.config(r)), dict(k="plan", lang=l, plan=[0], given=True, ph=[])))
    return out


def check(rep):
    rep.model("MCSearch")
    drv = build_driver()
    r = rng("c16")
    for _ in range(4 if rep.thorough else 1):
        cases = plans(rep, drv, r, 2500, 5) + based(rep, drv, r, 1200) + laws(rep, drv, r, 1800) + anything(rep, r, 1200) + silence(r, 300)
        for q, rec in cases:
            rec.update({k: v for k, v in dict(plan=[0], given=True, ph=[], text=[0], parts=[], among=[]).items() if k not in rec})
        for k in ("plan", "law", "lang", "any"):
            rep.extra[k] = rep.extra.get(k, 0) + sum(1 for _, x in cases if x["k"] == k)
        judge(rep, drv, "TraceSearch", cases, key=lambda o: dict(f=g.matches(o["found"])), env=UTC)
    rep.extra["languages"] = len(LANGS)
