"""C26: the language of a search."""
from vlib import *
import selgen
import unicodedata

ALPHABET = {l: set(v) for l, v in json.load(open(os.path.join(VERIF, "spec", "alphabets.json"))).items()}
LANGS = sorted(ALPHABET, key=lambda l: selgen.LOCALES[l]["rank"])
ROWS = json.load(open(os.path.join(VERIF, "spec", "vocabulary.json"), encoding="utf-8"))
OTHER = {e["a"] for e in ROWS if e["k"] not in ("month", "day")} | {"ago"}     # known for something else, some in every language
STRANGERS = {"ii", "dz", "chr", "am"}
COMPACT = {"zh", "zh-Hans", "zh-Hant", "yue", "ja", "th", "lo", "km", "my", "bo", "dz"}     # written without spaces: what is a word there?
LETTERS = [l for l in LANGS if l not in COMPACT]
POOL = [l for l in selgen.POOL if l not in COMPACT]
NOW = [2012, 11, 13, 10, 20, 30, 0]


def fold(t):
    return " ".join(unicodedata.normalize("NFKC", t).replace(".", "").lower().split())


def plain(w):
    """A word of letters only, whose letters are not changed by normalisation."""
    return len(w) >= 3 and all(unicodedata.category(c) in ("Ll", "Lu", "Lo") for c in w) and fold(w) == w.lower() and w.lower() not in OTHER and \
        unicodedata.normalize("NFKD", w) == w and len(w.lower()) == len(w)


def words(r, n):
    """Names of months and weekdays with their kind."""
    pool = sorted({(e["a"], e["k"]) for e in ROWS if e["k"] in ("month", "day") and e["loc"] in ALPHABET and plain(e["a"])})
    big = set(selgen.POOL)
    near = sorted({(e["a"], e["k"]) for e in ROWS if e["k"] in ("month", "day") and e["loc"] in big and plain(e["a"])})
    return sorted(set(r.sample(pool, min(n, len(pool))) + r.sample(near, min(n, len(near)))))


def knowledge(drv, ws):
    """Which language knows which word: the one that reads it in a date."""
    q = [(w, l) for w in ws for l in LANGS]
    ask = [dict(op="parse", text="15 %s 2014" % w[0] if w[1] == "month" else w[0], ptypes=[4], cfg=dict(langs=[l], now=NOW, order="DMY")) for w, l in q]
    k = {w: set() for w in ws}
    for (w, l), o in zip(q, run_seq(drv, ask)):
        if o["dt"]["some"]:
            k[w].add(l)
    rows = {(fold(e["a"]), selgen.LOCALES[e["loc"]]["lang"]) for e in ROWS}
    for w in ws:
        if any((fold(w[0]), l) not in rows for l in k[w]):      # read, but as what? (Catalan "una" is the number 1)
            k[w] = set()
    other = [dict(op="parse", text="2 %s" % w[0], ptypes=[2], cfg=dict(langs=[l], now=NOW)) for w, l in q]
    for (w, l), o in zip(q, run_seq(drv, other)):
        if o["dt"]["some"] and l not in k[w]:            # a month here, a unit of time there
            k[w] = set()
    return k


def lists(r, ls, pool):
    """A selection that holds the languages ls."""
    c = dict(locales=[], langs=[], detect=[], deflangs=[], given=r.random() < 0.4)
    k = r.random()
    if k < 0.55:
        c["langs"] = ls
    elif k < 0.8:
        c["detect"] = ls
    elif k < 0.95:
        c["locales"] = [r.choice([x for x in selgen.LOCALES if selgen.LOCALES[x]["lang"] == l]) if r.random() < 0.5 else l for l in (dict.fromkeys(ls) if r.random() < 0.4 else ls)]
        if r.random() < 0.3:
            c["langs"] = [r.choice(pool)]
    if r.random() < 0.4:
        c["deflangs"] = [r.choice(pool) for _ in range(r.randint(1, 2))]
    if c["langs"] and r.random() < 0.2:
        c["detect"] = [r.choice(pool)]
    return c


def case(r, know, ws, n):
    k = r.random()
    if k < 0.08:
        t, used = r.choice(["2014-03-05", "10:30", "12/11/10", "3.4.2015", "10:30 pm", "5", "am", "(2012)", "1, 2, 3", "12'30"]), []
    elif k < 0.16:
        t, used = r.choice(["zzz", "xqzwk 5", "жжж", "ß 5 ß", "ñ", "žlutý kůň", "ωω 2014", "ی ۵", "中", "あ 3", "ő", "ъ 1", "ї 1990", "łó", "ğ 7"]), []
        t = t if "ů" not in t else "kůň 5"
        if not all(plain(w) or w.isascii() and w.isdigit() or len(w) < 3 for w in t.split()):
            t = "zzz"
    else:
        used = [r.choice(ws)]
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            mates = [w for w in ws if know[w] & know[used[0]]] if r.random() < 0.6 else ws
            used.append(r.choice(mates))
        used = list({w[0].lower(): w for w in used}.values())
        bits = [w[0] for w in used]
        if r.random() < 0.3:
            bits.append("xqzwk")
        nums = r.sample(["15", "2014", "3", "1999"], r.choice([0, 0, 1, 2]))
        bits += nums
        r.shuffle(bits)
        t = " ".join(bits)
    pool = POOL if r.random() < 0.5 else LETTERS
    some = sorted(set().union(*[know[w] for w in used]) - COMPACT) if used else []
    if not used and r.random() < 0.3:
        pool, some = LANGS, []
    ls = [r.choice(some) if some and r.random() < 0.6 else r.choice(pool) for _ in range(r.choice([1, 2, 2, 3, 4, 6]))]
    c = lists(r, ls, pool)
    if used and not (c["locales"] or c["langs"] or c["detect"]):      # among all languages: only texts without words
        c["langs"] = ls
    q = dict(op="search", text=t, sess="d%d" % n if c["detect"] else r.choice(["", "s%d" % r.randrange(8)]), cfg=dict(
        now=NOW, locales=c["locales"], langs=c["langs"], deflangs=c["deflangs"], given=c["given"]))
    if c["detect"]:
        q["detect"] = c["detect"]
    sel = [selgen.LOCALES[x]["lang"] for x in c["locales"]] or c["langs"] or c["detect"] or LANGS
    rec = dict(c=c, cps=sorted({ord(x) for x in fold(t)}), numbers=len({b for b in t.split() if b.isascii() and b.isdigit()}),
               knows={l: sum(l in know[w] for w in used) for l in sel})
    return q, rec


def view(o):
    return [dict(t=f["text"], d={k: f["dt"][k] for k in selgen.KEYS}) for f in o["found"]]


def check(rep):
    rep.model("MCSearchLanguage")
    drv = build_driver()
    r = rng("c26")
    ws = words(r, 500 if rep.thorough else 120)
    know = knowledge(drv, ws)
    ws = [w for w in ws if know[w] and not know[w] & STRANGERS]   # a word that these know is read without their vocabulary
    cases = []
    for n in range(60000 if rep.thorough else 9000):
        q, rec = case(r, know, ws, n)
        ls = [selgen.LOCALES[x]["lang"] for x in rec["c"]["locales"]] or rec["c"]["langs"]
        more = sorted(set(POOL) - set(ls))
        if len(set(ls)) < len(ls) and more and not q.get("detect") and not rec["c"]["deflangs"] == ls[:1]:
            # first a search in as many languages, on a parser that no other search uses
            q["sess"] = "p%d" % n
            first = dict(locales=[], langs=sorted(set(ls)) + r.sample(more, len(ls) - len(set(ls))), detect=[], deflangs=[], given=False)
            cases.append((dict(op="search", text="2014", sess=q["sess"], cfg=dict(now=NOW, langs=first["langs"])),
                          dict(c=first, cps=[ord(x) for x in "2014"], numbers=1, knows={l: 0 for l in first["langs"]})))
        cases.append((q, rec))
    obs = run_seq(drv, [q for q, _ in cases])
    again = run_seq(drv, [dict(op="searchlang", lang=o["lang"] or "en", text=q["text"], cfg=q["cfg"]) for (q, _), o in zip(cases, obs)])
    recs = []
    for i, ((q, rec), o, a) in enumerate(zip(cases, obs, again)):
        if o["panic"] or o["hang"]:
            rep.violation("no answer: %r" % q["text"], dict(request=q, answer=o))
        recs.append(dict(rec, id=i, lang=o["lang"], err=o["iserr"], locs=[f["dt"]["loc"] for f in o["found"]],
                         found=view(o), alone=view(a) if o["lang"] else []))
    for rec, why in rep.conform("TraceSearchLanguage", recs):
        q = cases[rec["id"]][0]
        rep.violation("%r searched in %r: %s" % (q["text"], rec["lang"], why), dict(request=q, record=rec, spec=why))
    rep.sample(*[dict(request=cases[i][0], language=obs[i]["lang"]) for i in (0, len(cases) // 2)])
