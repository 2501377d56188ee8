"""Texts made of date phrases in prose, with what they were made of."""
from vlib import *
import absgen, relgen, questions, selgen

ENGLISH = "parliament children building yellow question trumpets nobody because always government whisper blanket jazz LOCATION interest".split()
FOREIGN = "xqzwk brrkla kvozdru plimfto grundvek troszni zzzz XQWEST".split()
COMPACT = {"zh", "ja", "yue", "th", "lo", "km", "my", "bo", "dz"}     # languages written without spaces between words
KEYS = ("some", "y", "mo", "d", "h", "mi", "s", "ns", "off", "per")


def letters(t):
    return [ord(c) for c in t if not c.isspace()]


def trimmed(t):
    return letters(t.strip(" .,:()[]-'"))


def where(loc):
    return dict(locales=[loc]) if loc in REGIONS else dict(langs=[loc])


def date(d):
    return {k: d[k] for k in KEYS}


def matches(found):
    return [dict(t=letters(f["text"]), d=date(f["dt"]), loc=f["dt"]["loc"]) for f in found]


def wrap(r, phrases, words, stops=True):
    """The text and its plan: 0 a word, 1 the end of a sentence, 1 + j the j-th phrase."""
    text, plan = "", []
    for j, p in enumerate(phrases):
        n = r.randint(1 if j else 0, 3)
        text += " ".join(r.choice(words) for _ in range(n))
        plan += [0] * n
        if n:
            k = r.choice([" ", " ", ", ", "; ", " ("] + ([". ", "\n"] if stops else []))
            text += k
            if k in ("\n", ". "):
                plan.append(1)
        text += p
        plan.append(j + 2)
        k = r.choice([" ", " ", ", ", ") "] + ([". ", "\n"] if stops else []))
        text += k
        if k in ("\n", ". "):
            plan.append(1)
    n = r.randint(0, 2)
    text += " ".join(r.choice(words) for _ in range(n))
    return text, plan + [0] * n


def config(r, given=True):
    c = questions.config(r)
    for k in ("skip", "strict", "req", "deforder", "langs"):
        c.pop(k, None)
    if not given:
        c.pop("now"), c.pop("nowzone", None)
        c["tz"] = relgen.driver_zone(relgen.rnd_zone(r, 0.4))
    return c


def english(r, whole=False):
    """(phrase, relative). A phrase of two characters is no phrase."""
    while True:
        if not whole and r.random() < 0.5:
            t = relgen.rnd_relative(r)[1]
            rel = True
        else:
            c, _, t, _ = absgen.rnd_case(r, shape=r.choice(["dmy", "wdmy"]) if whole else None)
            rel = False
            if c["yl"] == 2 and c["t"] and c["tp"] == "Hour" and "," in t:    # "Jan 21, 29 at 12 AM" is two dates for a reader
                continue
            if whole and c["d"] > absgen.dim(c["y"], c["m"]):
                continue
        if len(t) > 2:
            return t, rel


REGIONS = json.load(open(os.path.join(VERIF, "spec", "regions.json")))
ROWS = json.load(open(os.path.join(VERIF, "spec", "vocabulary.json"), encoding="utf-8"))
DATES = [x for x in questions.CORPUS["dates"] if selgen.LOCALES.get(x["loc"], {}).get("lang")]


def row_phrase(r, e):
    if e["k"] == "month":
        return "15 %s 2014" % e["a"] if r.random() < 0.7 else "%s 2014" % e["a"]
    if e["k"] == "day":
        return e["a"]
    return e["a"] + (str(r.choice(e["ks"])) if e["k"] == "rel" else "") + e["b"]
