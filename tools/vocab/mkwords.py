"""Builds spec/words.json: words that go-dateparser promises beyond the CLDR. Taken out of data-supplementary (the sources
that its maintainers write by hand, not the tables that are compiled), out of the tables of the JDK and of node for the
halves of the day, and phrases with number words and the like that are written down here with their meaning. Run by hand,
once: the table is fixed afterwards.
  mkwords.py SUPPLEMENTARY-DIR JDK-AMPM.tsv ICU-AMPM.json OUT.json"""
import sys, os, json, re, glob, collections, datetime, calendar, yaml
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../lib"))
from vlib import *
src, jdk, icu, out = sys.argv[1:5]
V = json.load(open(os.path.join(VERIF, "spec/vocabulary.json"), encoding="utf-8"))
MONTHS = "january february march april may june july august september october november december".split()
DAYS = "monday tuesday wednesday thursday friday saturday sunday".split()
UNITS = "year month week day hour minute second".split()
KS = [1, 2, 3, 4, 5, 6, 8, 10, 11, 14, 20, 21, 25, 30, 45, 60]
have = {(e["loc"], e["k"], e["a"].lower().strip("."), e["b"].lower()) for e in V}
cand, seen = [], set()
def add(loc, k, v, a, b="", u="", ks=()):
    key = (loc, k, a.lower(), b.lower())
    if key in seen or (loc, k, a.lower().strip("."), b.lower()) in have: return
    seen.add(key); cand.append(dict(loc=loc, k=k, v=v, u=u, a=a, b=b, ks=list(ks)))
def lst(x): return [str(w) for w in (x or []) if isinstance(w, (str, int)) and not isinstance(w, bool)]
NUM = dict(
    en=dict(a=1, an=1, one=1, two=2, three=3, four=4, five=5, six=6, seven=7, eight=8, nine=9, ten=10, eleven=11, twelve=12),
    de=dict(einer=1, einem=1, ein=1, zwei=2, drei=3, vier=4, fünf=5, sechs=6, sieben=7, acht=8, neun=9, zehn=10, elf=11, zwölf=12),
    fr=dict(une=1, un=1, deux=2, trois=3, quatre=4, cinq=5, six=6, sept=7, huit=8, neuf=9, dix=10, onze=11, douze=12),
    ru=dict(одна=1, одну=1, одни=1, одной=1, один=1, два=2, две=2, двое=2, двух=2, пара=2, пару=2, пары=2, три=3, четыре=4, пять=5, шесть=6, семь=7, восемь=8,
            девять=9, десять=10, одиннадцать=11, двенадцать=12, пятнадцать=15, двадцать=20, тридцать=30, сорок=40, пятьдесят=50),
    uk={"одна": 1, "одну": 1, "одні": 1, "одної": 1, "однієї": 1, "один": 1, "одній": 1, "два": 2, "дві": 2, "двоє": 2, "двох": 2, "пара": 2, "пару": 2, "парі": 2,
        "три": 3, "чотири": 4, "п'ять": 5, "шість": 6, "сім": 7, "вісім": 8, "дев'ять": 9, "десять": 10, "одинадцять": 11, "дванадцять": 12, "п'ятнадцять": 15,
        "двадцять": 20, "тридцять": 30, "сорок": 40, "п'ятдесят": 50},
    bg=dict(един=1, два=2, три=3), ca=dict(una=1, un=1), da=dict(en=1, et=1), es=dict(una=1, un=1), hu=dict(egy=1), ka={"ერთ": 1}, pt=dict(uma=1, um=1),
    sv={"en": 1, "två": 2})
SAY = dict(     # phrases: [text, direction, amount, unit]
    ru=[["полчаса назад", -1, 30, "minute"], ["через полчаса", 1, 30, "minute"], ["полгода назад", -1, 6, "month"], ["через полгода", 1, 6, "month"],
        ["полтора часа назад", -1, 90, "minute"], ["через полтора часа", 1, 90, "minute"], ["полтора года назад", -1, 18, "month"], ["через полтора года", 1, 18, "month"],
        ["несколько секунд назад", -1, 44, "second"], ["через несколько секунд", 1, 44, "second"], ["через секунду", 1, 1, "second"], ["через минуту", 1, 1, "minute"],
        ["через час", 1, 1, "hour"], ["через день", 1, 1, "day"], ["через сутки", 1, 1, "day"], ["через неделю", 1, 1, "week"], ["через месяц", 1, 1, "month"],
        ["через год", 1, 1, "year"], ["спустя час", 1, 1, "hour"], ["спустя неделю", 1, 1, "week"], ["секунду назад", -1, 1, "second"], ["минуту назад", -1, 1, "minute"],
        ["час назад", -1, 1, "hour"], ["день назад", -1, 1, "day"], ["сутки назад", -1, 1, "day"], ["неделю назад", -1, 1, "week"], ["месяц назад", -1, 1, "month"],
        ["год назад", -1, 1, "year"]],
    uk=[["півгодини тому", -1, 30, "minute"], ["пів години тому", -1, 30, "minute"], ["через півгодини", 1, 30, "minute"], ["півроку тому", -1, 6, "month"],
        ["пів року тому", -1, 6, "month"], ["півтори години тому", -1, 90, "minute"], ["півтора року тому", -1, 18, "month"], ["годину тому", -1, 1, "hour"],
        ["хвилину тому", -1, 1, "minute"], ["секунду тому", -1, 1, "second"], ["кілька секунд тому", -1, 44, "second"], ["кілька хвилин тому", -1, 2, "minute"],
        ["2 година тому", -1, 2, "hour"], ["3 хвилина тому", -1, 3, "minute"], ["4 секунда тому", -1, 4, "second"]],
    be=[["гадзіну таму", -1, 1, "hour"], ["хвіліну таму", -1, 1, "minute"], ["секунду таму", -1, 1, "second"], ["некалькі секунд таму", -1, 44, "second"],
        ["некалькі хвілін таму", -1, 2, "minute"], ["праз гадзіну", 1, 1, "hour"]],
    he=[["לפני שנתיים", -1, 2, "year"], ["לפני חודשיים", -1, 2, "month"], ["לפני שבועיים", -1, 2, "week"], ["לפני יומיים", -1, 2, "day"], ["לפני שעתיים", -1, 2, "hour"],
        ["שלשום", -1, 2, "day"], ["מחר", 1, 1, "day"], ["לפני יומים", -1, 2, "day"], ["לפני שעתים", -1, 2, "hour"], ["בעוד יומיים", 1, 2, "day"], ["בעוד שעתיים", 1, 2, "hour"]],
    pl=[["dziś", 0, 0, "day"], ["dzisiaj", 0, 0, "day"], ["onegdaj", -1, 2, "day"], ["przedwczoraj", -1, 2, "day"], ["jutro", 1, 1, "day"], ["pojutrze", 1, 2, "day"]],
    sk=[["pred sekundou", -1, 1, "second"], ["pred minútou", -1, 1, "minute"], ["pred hodinou", -1, 1, "hour"], ["pred týždňom", -1, 1, "week"], ["pred mesiacom", -1, 1, "month"],
        ["pred rokom", -1, 1, "year"], ["pred pol rokom", -1, 6, "month"], ["o sekundu", 1, 1, "second"], ["o minútu", 1, 1, "minute"], ["o hodinu", 1, 1, "hour"],
        ["o týždeň", 1, 1, "week"], ["o mesiac", 1, 1, "month"], ["o rok", 1, 1, "year"], ["o pol roka", 1, 6, "month"]],
    th=[["วันนี้", 0, 0, "day"], ["เมื่อวานนี้", -1, 1, "day"], ["1 วันที่แล้ว", -1, 1, "day"], ["เมื่อวานซืน", -1, 2, "day"], ["2 วันที่แล้ว", -1, 2, "day"]],
    tl=[["kahapon", -1, 1, "day"], ["ngayon", 0, 0, "second"]],
    pt=[["alguns segundos atrás", -1, 44, "second"], ["há alguns segundos", -1, 44, "second"]],
    cs=[["teď", 0, 0, "second"]], zh=[["半小时前", -1, 30, "minute"]], en=[["less than 1 minute ago", -1, 45, "second"], ["less than a minute ago", -1, 45, "second"],
        ["3 weeks from now", 1, 3, "week"], ["5 minutes later", 1, 5, "minute"], ["2 days later", 1, 2, "day"], ["one year from now", 1, 1, "year"], ["a week from now", 1, 1, "week"],
        ["4 months before", -1, 4, "month"], ["7 hrs ago", -1, 7, "hour"], ["after 3 hours", 1, 3, "hour"]],
    fi=[["3 sekunnin kuluttua", 1, 3, "second"], ["4 minuutin päästä", 1, 4, "minute"], ["5 tunnin kuluttua", 1, 5, "hour"], ["6 päivän päästä", 1, 6, "day"], ["2 viikon päästä", 1, 2, "week"],
        ["7 kuukauden kuluttua", 1, 7, "month"], ["8 vuoden päästä", 1, 8, "year"]],
    da=[["for 5 h siden", -1, 5, "hour"], ["for 7 timer siden", -1, 7, "hour"], ["for 3 minutter siden", -1, 3, "minute"], ["for 9 sekunder siden", -1, 9, "second"],
        ["for 5 timer", -1, 5, "hour"], ["for 5 minutter", -1, 5, "minute"], ["for 5 sekunder", -1, 5, "second"]],
    de=[["vor 5 h", -1, 5, "hour"], ["vor 7 m", -1, 7, "minute"], ["vor 9 s", -1, 9, "second"]],
    nb=[["for 3 dager siden", -1, 3, "day"]], it=[["1 ora fa", -1, 1, "hour"]],
    hi=[["3 दशक में", 1, 30, "year"], ["2 दशक पहले", -1, 20, "year"], ["पिछला दशक", -1, 10, "year"], ["अगला दशक", 1, 10, "year"]],
    bn=[], id=[["3 minggu lalu", -1, 3, "week"], ["4 bulan lalu", -1, 4, "month"], ["5 tahun lalu", -1, 5, "year"]],
    hr=[["prije 3 godine", -1, 3, "year"], ["prije 2 mjeseca", -1, 2, "month"], ["prije 4 tjedna", -1, 4, "week"], ["prije 3 sata", -1, 3, "hour"], ["prije 3 minute", -1, 3, "minute"],
        ["prije 3 sekunde", -1, 3, "second"], ["za 3 godine", 1, 3, "year"], ["za 2 mjeseca", 1, 2, "month"], ["za 4 tjedna", 1, 4, "week"], ["za 3 sata", 1, 3, "hour"],
        ["za 3 minute", 1, 3, "minute"], ["za 3 sekunde", 1, 3, "second"]])
for f in sorted(glob.glob(os.path.join(src, "*.yaml"))):
    l = os.path.basename(f)[:-5]
    y = yaml.safe_load(open(f, encoding="utf-8"))
    for names, kind in ((MONTHS, "month"), (DAYS, "day")):
        for v, n in enumerate(names, 1):
            for w in lst(y.get(n)): add(l, kind, v, w)
    for k, ws in (y.get("relative-type") or {}).items():
        m = re.fullmatch(r"(in )?(\d+) (\w+?)( ago)?", k)
        n, u = int(m[2]), m[3]
        if u == "decade": n, u = n * 10, "year"
        v = 0 if n == 0 else 1 if m[1] else -1
        if m[1] or m[4]:
            for w in lst(ws): add(l, "word", v, w, u=u, ks=[n])
    for u in UNITS:
        for w in lst(y.get(u)):
            for a in lst(y.get("ago")): add(l, "rel", -1, a + " ", " " + w, u, KS); add(l, "rel", -1, "", " " + w + " " + a, u, KS)
            for a in lst(y.get("in")): add(l, "rel", 1, a + " ", " " + w, u, KS); add(l, "rel", 1, "", " " + w + " " + a, u, KS)
    for v, n in enumerate(("am", "pm"), 1):
        for w in lst(y.get(n)): add(l, "half", v, w)
for w, u in zip(("năm", "tháng", "tuần", "ngày", "giờ", "phút", "giây"), UNITS): add("vi", "rel", -1, "", " " + w + " trước đây", u, KS)
for l, ps in SAY.items():
    for t, v, n, u in ps: add(l, "word", v, t, u=u, ks=[n])
for l, ws in NUM.items():
    for w, n in ws.items():
        for e in V:
            if e["loc"] == l and e["k"] == "rel" and n in e["ks"]: add(l, "word", e["v"], e["a"] + w + e["b"], u=e["u"], ks=[n])
for line in open(jdk, encoding="utf-8"):
    l, v, w = line.rstrip("\n").split("\t"); add(l, "half", int(v), w)
for l, v, w in json.load(open(icu)): add(l, "half", v, w)
REG = json.load(open(os.path.join(VERIF, "spec", "regions.json")))
for w, h in (("בבוקר", 1), ("בצהריים", 2), ("בערב", 2), ("לפנות ערב", 2), ("לפנות בוקר", 1), ('אחה"צ', 2)): add("he", "half", h, w)
cand = [c for c in cand if not (c["k"] == "half" and c["loc"] in REG and (REG[c["loc"]], "half", c["a"].lower(), "") in seen)]
NOWS = [[2020, 6, 16, 12, 30, 40, 0], [2023, 12, 8, 0, 0, 5, 0]]
def shift(now, u, k):
    t0 = datetime.datetime(*now)
    if u in ("year", "month"):
        t = t0.year * 12 + t0.month - 1 + k * (12 if u == "year" else 1)
        return t0.replace(year=t // 12, month=t % 12 + 1, day=min(t0.day, calendar.monthrange(t // 12, t % 12 + 1)[1]))
    return t0 + datetime.timedelta(**{u + "s": k})
def where(l): return dict(locales=[l]) if l in REG else dict(langs=[l])
reqs, meta = [], []
def ask(i, text, pt, cfg, ok): reqs.append(dict(op="parse", text=text, ptypes=pt, cfg=dict(where(cand[i]["loc"]), **cfg))); meta.append((i, ok))
for i, e in enumerate(cand):
    if e["k"] == "month":
        for text, g, now in (("15 %s 2014", (2014, e["v"], 15), [2020, 2, 3]), ("%s 2011", (2011, e["v"], 1), [2021, 9, 1]), ("28 %s 2003", (2003, e["v"], 28), [2024, 6, 30])):
            ask(i, text % e["a"], [4], dict(now=now + [0] * 4, order="DMY"), lambda d, g=g: (d["y"], d["mo"], d["d"]) == g)
    elif e["k"] == "day":
        for now in ([2020, 2, 3], [2021, 9, 1], [2015, 4, 30], [2024, 1, 27]):
            ask(i, e["a"], [4], dict(now=now + [0] * 4), lambda d, v=e["v"]: d["wd"] == v)
    elif e["k"] == "half":
        for h, m in ((12, 10), (3, 5), (11, 59), (1, 0), (9, 30)):
            x = h % 12 + (12 if e["v"] == 2 else 0)
            for t in ("%d:%02d %s" % (h, m, e["a"]), "2014-11-25 %d:%02d %s" % (h, m, e["a"])):
                ask(i, t, [4], dict(now=[2020, 2, 3, 0, 0, 0, 0], order="YMD"), lambda d, x=x, m=m: (d["h"], d["mi"], d["s"]) == (x, m, 0))
    else:
        for k in e["ks"]:
            for now in NOWS:
                g = shift(now, e["u"], e["v"] * k)
                ask(i, e["a"] + (str(k) if e["k"] == "rel" else "") + e["b"], [2], dict(now=now),
                    lambda d, g=g: (d["y"], d["mo"], d["d"], d["h"], d["mi"], d["s"]) == (g.year, g.month, g.day, g.hour, g.minute, g.second))
print(len(cand), "candidates", len(reqs), "questions")
obs = run_seq(build_driver(), reqs)
tally = collections.defaultdict(lambda: [0, 0, 0, ""])
for o, (i, ok) in zip(obs, meta):
    d, a = o["dt"], tally[i]
    if not d["some"]: a[0] += 1; a[3] = a[3] or "%r: none" % reqs[o["id"]]["text"]
    elif ok(d): a[1] += 1
    else: a[2] += 1; a[3] = "%r: %d-%02d-%02d %02d:%02d:%02d" % (reqs[o["id"]]["text"], d["y"], d["mo"], d["d"], d["h"], d["mi"], d["s"])
good = [cand[i] for i in range(len(cand)) if not tally[i][0] and not tally[i][2]]
bad = [(cand[i], tally[i]) for i in range(len(cand)) if tally[i][0] or tally[i][2]]
with open(out + ".bad", "w", encoding="utf-8") as f:
    for c, t in bad: f.write("%s %s %s %s %r+%r %s\n" % (c["loc"], c["k"], c["v"], c["u"], c["a"], c["b"], t))
order = {}
good.sort(key=lambda e: order.setdefault(e["loc"], len(order)))
with open(out, "w", encoding="utf-8") as f:
    f.write("[\n" + ",\n".join(json.dumps(r, ensure_ascii=False, separators=(",", ":")) for r in good) + "\n]\n")
print(len(good), "rows", len(bad), "bad", collections.Counter(c["k"] for c in good), collections.Counter(c["k"] for c, _ in bad))
