"""C19: every call is answered, whatever the text."""
from vlib import *
from questions import question, ask, CORPUS
import surface, selgen, relgen

WORDS = ["ago", "in", "from now", "next", "last", "year", "months", "week", "decade", "day", "hour", "hours", "minutes", "second", "monday", "Feb", "May", "am", "pm", "noon", "UTC",
         "GMT+25", "+99:99", "EST", "-", "/", ".", ":", ",", "'", "T", "Z", "th", "st", "and", "or", "today", "now", "ago ago", "before", "after", "ما قبل", "г.", "年", "月", "日", "前", "後",
         "nächste", "dans", "hace", "через", "назад", "ngày", "am", "%s", "(", ")", "[", "]", "\\", "*", "+", "?", "^", "$", "|", "{", "}"]
BIG = ["0", "00", "1", "31", "32", "99", "100", "999", "1000", "9999", "10000", "99999", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808",
       "99999999999999999999999", "1e9", "1.5", "1,5", "0.0000001", "-1", "-0", "+1", "½", "²", "①", "Ⅷ", "零", "一", "万"]


def words(r):
    return "".join(r.choice(r.choice([WORDS, BIG])) + r.choice([" ", " ", " ", "", "  "]) for _ in range(r.randint(1, 12)))


AMBIGUOUS = json.load(open(os.path.join(VERIF, "lib", "ambiguous.json")))


def repeated(r, q):
    """Long texts that repeat something, ambiguous words and words of any language among them."""
    k = r.random()
    if k < 0.35:
        loc = r.choice(list(AMBIGUOUS))
        u, langs = r.choice(AMBIGUOUS[loc]) + r.choice([" ", " ", " 5 ", ". "]), [loc]
    elif k < 0.7:
        x = r.choice(CORPUS["dates"])
        langs = [selgen.LOCALES[x["loc"]]["lang"]] if x["loc"] in selgen.LOCALES else ["en"]
        u = r.choice([r.choice(x["t"].split() or ["1"]) + " ", x["t"] + " ", r.choice(x["t"] or "1")])
    else:
        langs = ["en", "ru"]
        u = r.choice([r.choice(WORDS) + " ", r.choice(BIG) + " ", r.choice(WORDS), r.choice(surface.ODD), r.choice(BIG) + r.choice("/:-. ")])
    q["text"] = (u * 600)[:r.choice([100, 200, 400])]
    if q["op"] in ("parse", "search"):
        q["cfg"]["langs"] = langs
        q["cfg"].pop("locales", None), q["cfg"].pop("region", None)
    elif q["op"] == "searchlang":
        q["lang"] = langs[0]


def noise(r):
    k = r.random()
    if k < 0.3:
        return "".join(chr(r.choice([r.randint(32, 126), r.randint(32, 0x2ff), r.randint(0x370, 0x1fff), r.randint(0x2000, 0xd7ff), r.randint(0xe000, 0xfffd), r.randint(0x10000, 0x1ffff)]))
                       for _ in range(r.randint(0, 60)))
    if k < 0.6:
        b = bytes(r.randrange(256) for _ in range(r.randint(0, 80)))
        return b.decode("utf-8", "surrogateescape")
    if k < 0.8:
        return "".join(r.choice("0123456789:/-. ,TZ+") for _ in range(r.randint(0, 60)))
    return r.choice(["", " ", "\n", "\x00", "\u200e", ".", "(", "0", "-", ",", "'", "\ufeff", "a", "é", "１", "12", "on:", "t", "T ", "Z", "+", "()", "[]", "  \t "])


def text(r, t):
    k = r.random()
    if k < 0.35:
        return surface.damage(r, t)
    if k < 0.45:
        return surface.script(r, t)
    if k < 0.55:
        return surface.invalid(r, t)
    if k < 0.75:
        return words(r)
    return noise(r)


def shown(d):
    far = abs(d["y"]) > 99999
    r = {k: d[k] for k in ("some", "y", "mo", "d", "h", "mi", "s", "ns", "off", "wd", "per", "loc", "ed", "es")}
    if far:
        r.update(y=0, ed=0)
    return dict(r, far=far)


def check(rep):
    drv = build_driver()
    rep.model("MCTotality")
    r = rng("c19")
    reqs = []
    for _ in range(150000 if rep.thorough else 11000):
        q = ask(r, r.choice(["parse"] * 10 + ["search", "searchlang", "searchlang", "hijri", "jalali", "jalali", "poptz"]))
        q["text"] = text(r, q["text"])
        if r.random() < 0.12:
            repeated(r, q)
        c = q["cfg"]
        if r.random() < 0.1:
            c["now"] = r.choice([[], [1, 1, 1, 0, 0, 0, 1], [9999, 12, 31, 23, 59, 59, 999999999], [-4000, 2, 28, 0, 0, 0, 0], [100000, 1, 1, 0, 0, 0, 0], [1970, 1, 1, 0, 0, 0, 0]])
        if r.random() < 0.05:
            c["orderfn"] = {"*": r.choice(["", "x", "YMDX", "MM", "ymd", "Dmy", "日月年"])}
        if r.random() < 0.1:
            q["formats"] = [r.choice(["", " ", "2006", "x", "Jan", "15", "2006-01-02T15:04:05Z07:00", "Mon", "_2", "002", ".000", "MST", "-07", text(r, "2006-01-02")]) for _ in range(r.randint(1, 3))]
            if any("\udc80" <= x <= "\udcff" for f in q["formats"] for x in f):
                q["formats"] = ["2006"]
        if r.random() < 0.1:
            c["skip"] = [noise(r).encode("utf-8", "replace").decode() for _ in range(2)]
        if q["op"] == "search" and not c.get("langs") and len(q["text"]) > 200:
            c["langs"] = ["en", "ru"]
        if r.random() < 0.03:
            c = q["cfg"] = dict(nil=True) if q["op"] in ("hijri", "jalali", "searchlang") else c
        q["sess"] = "default" if r.random() < 0.1 and not q.get("ptypes") and not q.get("detect") and q["op"] in ("parse", "search") else ""
        reqs.append(q)
    obs = run_seq(drv, reqs, shards=NCPU)
    recs = []
    for i, (q, o) in enumerate(zip(reqs, obs)):
        size = len(q["text"].encode("utf-8", "replace"))
        slow = o["ms"] > 8000 + 20 * size
        if slow:                              # a busy machine is no reason
            _, again = confirm(drv, q, o)
            slow = again["ms"] > 8000 + 20 * size
        recs.append(dict(i=i, op=q["op"], e=o["iserr"], d=shown(o["dt"]), f=[shown(f["dt"]) for f in o["found"]], num=o["num"],
                         lang=q["lang"] or o["lang"], fmts=bool(q["formats"]), hang=o["hang"], panic=o["panic"], slow=slow))
    rep.extra["answers with a date"] = sum(1 for o in obs if o["dt"]["some"] or o["found"])
    rep.extra["slowest call in ms"] = max(o["ms"] for o in obs)
    rep.sample(*[dict(text=ascii(reqs[i]["text"])[:200], op=reqs[i]["op"], some=obs[i]["dt"]["some"], err=obs[i]["err"]) for i in (1, 2, 3)])
    for rec, why in rep.conform("TraceTotality", recs):
        i = rec["i"]
        rep.violation("%r (%s): %s" % (reqs[i]["text"], reqs[i]["op"], why), dict(request=reqs[i], answer=obs[i]))
