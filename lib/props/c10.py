"""C10: the period tells how precise the text is."""
from vlib import *
import absgen, relgen
from props import c07, c09, c21

TIMES = dict(Hour=["hour"], Minute=["hour", "minute"], Second=["hour", "minute", "second"])
UNIT = dict(dec="decade", y="year", mo="month", w="week", d="day", h="hour", mi="minute", s="second")
PHRASE = {"now": "second", "today": "day", "yesterday": "day", "tomorrow": "day", "day before yesterday": "day",
          "day after tomorrow": "day", "less than 1 minute ago": "second"}
# amounts in other languages: (language, pattern, unit)
FOREIGN = [("de", "vor %d Jahren", "year"), ("de", "vor %d Tagen", "day"), ("de", "in %d Wochen", "week"), ("de", "vor %d Monaten", "month"),
           ("de", "in %d Stunden", "hour"), ("de", "vor %d Minuten", "minute"), ("de", "vor %d Sekunden", "second"), ("de", "gestern", "day"),
           ("fr", "il y a %d ans", "year"), ("fr", "il y a %d mois", "month"), ("fr", "dans %d jours", "day"), ("fr", "il y a %d heures", "hour"),
           ("fr", "dans %d minutes", "minute"), ("fr", "il y a %d secondes", "second"), ("fr", "hier", "day"),
           ("es", "hace %d años", "year"), ("es", "hace %d meses", "month"), ("es", "dentro de %d semanas", "week"), ("es", "hace %d horas", "hour"),
           ("es", "hace %d minutos", "minute"), ("es", "ayer", "day"), ("ru", "%d лет назад", "year"), ("ru", "%d месяцев назад", "month"),
           ("ru", "через %d дней", "day"), ("ru", "%d часов назад", "hour"), ("ru", "вчера", "day")]


def absolute(r):
    c, g, text, order = absgen.rnd_case(r)
    g = c07.reference(r, g)
    q = c07.request(c, g, text, order)
    q["ptypes"] = r.choice([[4], [4], []])
    w = [p for p, v in (("day", c["d"]), ("month", c["m"]), ("year", c["yl"]), ("weekday", c["wd"])) if v]
    return q, "absolute", w + (TIMES[c["tp"]] if c["t"] else [])


def named(r):
    """Months in other languages."""
    q, w = c09.foreign(r)
    return q, "absolute", w


def relative(r):
    q, rec = relgen.rnd_case(r)
    q["cfg"].pop("rtp", None)
    w = [UNIT[u] for u in rec["a"] if rec["a"][u] != -1]
    if any(rec["a"][u] % 1000 for u in rec["a"] if rec["a"][u] != -1):
        return None
    if rec["ph"]:
        w = [PHRASE.get(rec["ph"]) or rec["ph"].split()[1]]
    return q, "relative", w + (TIMES[rec["t"]["tp"]] if rec["t"]["t"] else [])


def foreign(r):
    l, pat, u = r.choice(FOREIGN)
    t = pat % r.randint(5, 20) if "%" in pat else pat
    w = [u]
    if r.random() < 0.3:
        c, tt = relgen.rnd_clock(r)
        if tt[-1].isdigit():
            t, w = t + " " + tt, w + TIMES[c["tp"]]
    q = dict(op="parse", text=t, ptypes=r.choice([[2], []]), cfg=dict(langs=[l], now=[2021, 6, 15, 12, 30, 0, 0]))
    return q, "relative", w


def timestamp(r):
    t = "%010d" % r.randint(10 ** 9, 2 * 10 ** 9) + r.choice(["", "123", "123456"])
    pt = r.choice([[0], []])
    if r.random() < 0.3:
        t, pt = "-" + t, r.choice([[1], []])
    return dict(op="parse", text=t, ptypes=pt, cfg=dict(langs=["en"], now=[2021, 6, 15, 12, 30, 0, 0])), "timestamp", []


def nospace(r):
    y, m = r.randint(1950, 2060), r.randint(1, 12)
    t = "%04d%02d%02d" % (y, m, r.randint(1, absgen.dim(y, m))) + r.choice(["", "1530", "153059"])
    return dict(op="parse", text=t, ptypes=[5], cfg=dict(langs=["en"], now=[2021, 6, 15, 12, 30, 0, 0], order="YMD")), "nospace", []


def layout(r):
    g = c07.reference(r, absgen.rnd_now(r))
    lay = c21.layout(r)
    v = c21.values(r, g)
    v["d"] = min(v["d"], 28)
    x = c21.tokens(r, lay, v)
    q = c07.request({}, g, "".join(c21.text_of(r, t) for t in x), "DMY")
    q["formats"], q["ptypes"] = ["".join(lay)], r.choice([[3], []])
    q["cfg"].pop("strict"), q["cfg"].pop("req")
    kinds = set()
    for k in lay:
        kinds |= {"2006": {"year"}, "06": {"year"}, "01": {"month"}, "1": {"month"}, "January": {"month"}, "Jan": {"month"},
                  "02": {"day"}, "2": {"day"}}.get(k, set())
    return q, "format", sorted(kinds)


def build(r, n):
    out = []
    while len(out) < n:
        x = r.choice([absolute, absolute, absolute, named, relative, relative, foreign, timestamp, nospace, layout])(r)
        if x:
            out.append(x)
    return out


def check(rep):
    drv = build_driver()
    rep.model("MCPeriod")
    r = rng("c10")
    cases = build(r, 50000 if rep.thorough else 12000)
    keys = ("some", "y", "mo", "d", "h", "mi", "s", "ns", "off", "loc", "per")
    plain = run_seq(drv, [dict(q, cfg=dict(q["cfg"], rtp=False)) for q, m, w in cases])
    both = []
    for (q, m, w), p in zip(cases, plain):
        if not p["dt"]["some"] and m in ("absolute", "format"):      # parts that do not exist together
            continue
        rtp = r.random() < 0.7
        both.append((dict(q, cfg=dict(q["cfg"], rtp=rtp)), dict(method=m, w=w, rtp=rtp, p={k: p["dt"][k] for k in keys})))
    judge(rep, drv, "TracePeriod", both, key=lambda o: dict(o={k: o["dt"][k] for k in keys}))
