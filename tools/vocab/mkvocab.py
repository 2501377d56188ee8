"""Builds spec/vocabulary.json: the words that the CLDR tables of the JDK and of node give to months, weekdays and
relative phrases, as far as go-dateparser knows them. Run by hand, once: the table is fixed afterwards.
  mkvocab.py DUMP.json JDK.tsv ICU.json OUT.json        (DUMP.json: names of the locales)"""
import sys, os, json, re, collections, datetime, calendar
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../lib"))
from vlib import *

dump, jdk, icu, out = sys.argv[1:5]
D = json.load(open(dump))
locs = list(D["locales"])
base = lambda l: l if l in D["langorder"] else l[:l.rfind("-")]
names = collections.defaultdict(set)           # locale -> (kind, value, word)
style = {}
for line in open(jdk, encoding="utf-8"):
    l, kind, v, st, w = line.rstrip("\n").split("\t")
    names[l].add((kind, int(v), w)); style.setdefault((l, kind, int(v), w), "short" if st.startswith("SHORT") else "long")
    if not st.startswith("SHORT"): style[l, kind, int(v), w] = "long"
I = json.load(open(icu))
for l in I:
    for st, kind, v, w in I[l]["names"]:
        names[l].add((kind, v, w)); style.setdefault((l, kind, v, w), st)
        if st == "long": style[l, kind, v, w] = "long"
tmpl = collections.defaultdict(lambda: collections.defaultdict(set))      # locale -> (unit, sign, template) -> ks
for l in I:
    for st, nu, u, k, t in I[l]["rel"]:
        if re.search(r"[-+−]", t) and re.search(r"[-+−]\s*\d", t): continue
        m = re.findall(r"(?<!\d)%d(?!\d)" % abs(k), t)
        if re.search(r"\d", t):
            if len(m) != 1 or len(re.findall(r"\d+", t)) != 1: continue
            t = re.sub(r"(?<!\d)%d(?!\d)" % abs(k), "{0}", t)
        tmpl[l][u, (k > 0) - (k < 0), t].add(abs(k))
NOW = datetime.datetime(2020, 6, 16, 12, 30, 40)
def shift(u, k):
    if u in ("year", "month"):
        t = NOW.year * 12 + NOW.month - 1 + k * (12 if u == "year" else 1)
        return NOW.replace(year=t // 12, month=t % 12 + 1, day=min(NOW.day, calendar.monthrange(t // 12, t % 12 + 1)[1]))
    return NOW + datetime.timedelta(**{u + "s": k})
def where(l):
    return dict(langs=[l]) if l in D["langorder"] else dict(locales=[l])
reqs, meta = [], []
NOWS = [[2020, 6, 16, 12, 30, 40, 0], [2023, 12, 8, 0, 0, 5, 0]]
for l in locs:
    b = base(l)
    for kind, v, w in sorted(names[l]):
        if not w.strip() or (l != b and (kind, v, w) in names[b]) or re.fullmatch(r"[\W\d]+", w): continue
        if kind == "month":
            for text, g, now in (("15 %s 2014", (2014, v, 15), [2020, 2, 3]), ("%s 2011", (2011, v, 1), [2021, 9, 1]),
                                 ("3 %s 1976", (1976, v, 3), [2015, 12, 4]), ("28 %s 2003", (2003, v, 28), [2024, 6, 30])):
                reqs.append(dict(op="parse", text=text % w, ptypes=[4], cfg=dict(where(l), now=now + [0, 0, 0, 0], order="DMY")))
                meta.append(((l, kind, v, w), lambda d, g=g: (d["y"], d["mo"], d["d"]) == g))
        else:
            for now in ([2020, 2, 3], [2021, 9, 1], [2015, 4, 30], [2024, 1, 27], [2022, 7, 8]):
                reqs.append(dict(op="parse", text=w, ptypes=[4], cfg=dict(where(l), now=now + [0, 0, 0, 0], order="DMY")))
                meta.append(((l, kind, v, w), lambda d, v=v: d["wd"] == v))
    for (u, s, t), ks in sorted(tmpl[l].items()):
        if l != b and (u, s, t) in tmpl[b] and ks == tmpl[b][u, s, t]: continue
        for k in sorted(ks):
            for now in NOWS:
                NOW = datetime.datetime(*now)
                reqs.append(dict(op="parse", text=t.replace("{0}", str(k)), ptypes=[2], cfg=dict(where(l), now=now)))
                e = shift(u, s * k)
                meta.append(((l, "rel", (u, s, t), k), lambda d, e=e: (d["y"], d["mo"], d["d"], d["h"], d["mi"], d["s"]) == (
                    e.year, e.month, e.day, e.hour, e.minute, e.second)))
print(len(reqs), "questions")
obs = run_seq(build_driver(), reqs)
table = collections.defaultdict(lambda: [[], [], {}]); wrong = []
ans = {}
for o, (m, ok) in zip(obs, meta):
    d = o["dt"]
    a = ans.setdefault(m, [0, 0, 0, ""])
    if not d["some"]: a[0] += 1
    elif ok(d): a[1] += 1
    else: a[2] += 1; a[3] = "%r: %d-%02d-%02d %02d:%02d:%02d" % (reqs[o["id"]]["text"], d["y"], d["mo"], d["d"], d["h"], d["mi"], d["s"])
for (l, kind, v, w), a in ans.items():
    if a[2] or (a[0] and a[1]): wrong.append((l, kind, v, w, a))
    elif a[1]:
        if kind == "rel": table[l][2].setdefault(v, []).append(w)
        else: table[l][0 if kind == "month" else 1].append([v, w])
print(sum(1 for a in ans.values() if a[1] and not a[0] and not a[2]), "right", sum(1 for a in ans.values() if a[0] and not a[1] and not a[2]), "unknown", len(wrong), "otherwise")
json.dump(wrong, open("/tmp/vwrong.json", "w"), ensure_ascii=False)
months = collections.defaultdict(set)          # "Maw" is a Tuesday and a March
for l in locs:
    for kind, v, w in names[l] | names[base(l)]:
        if kind == "month": months[l].add(w.lower().strip("."))
rows = []
for l in locs:
    if l not in table: continue
    m, d, r = table[l]
    for v, w in m: rows.append(dict(loc=l, k="month", v=v, u="", a=w, b="", ks=[]))
    for v, w in d:
        if w.lower().strip(".") not in months[l]: rows.append(dict(loc=l, k="day", v=v, u="", a=w, b="", ks=[]))
    for (u, s, t), ks in r.items():
        a, x, b = t.partition("{0}")
        rows.append(dict(loc=l, k="rel" if x else "word", v=s, u=u, a=a, b=b, ks=ks))
with open(out, "w", encoding="utf-8") as f:
    f.write("[\n" + ",\n".join(json.dumps(r, ensure_ascii=False, separators=(",", ":")) for r in rows) + "\n]\n")
print(len(rows), "rows")
