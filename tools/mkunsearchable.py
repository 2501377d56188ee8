#!/usr/bin/env python3
"""Lists the phrases of the vocabulary and of the corpus that a search of the present tree does not find as Parse reads them
(spec/unsearchable.json). Run by hand; the list is reviewed and committed, no check runs this."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import searchgen as g, random, selgen
r = random.Random(7)
drv = build_driver()
items = [("row", i, e["loc"], None) for i, e in enumerate(g.ROWS)] + [("date", x["t"], selgen.LOCALES[x["loc"]]["lang"], x["t"]) for x in g.DATES]
items = [x for x in items if x[2].split("-")[0] not in g.COMPACT]
reqs, meta = [], []
for it in items:
    for _ in range(30):
        p = it[3] or g.row_phrase(r, g.ROWS[it[1]])
        c = g.config(r)
        text, _ = g.wrap(r, [p], g.FOREIGN)
        reqs.append(dict(op="searchlang", lang=it[2], text=text, cfg=c))
        reqs.append(dict(op="parse", text=p, cfg=dict(c, **g.where(it[2]))))
        meta.append((it, p, text))
obs = run_seq(drv, reqs)
bad = {}
for j, (it, p, text) in enumerate(meta):
    f, d = g.matches(obs[2 * j]["found"]), g.date(obs[2 * j + 1]["dt"])
    if not d["some"] or len(f) != 1 or f[0]["t"] != g.trimmed(p) or f[0]["d"] != d:
        bad.setdefault(it, []).append((text, [(x["text"], "%(y)d-%(mo)d-%(d)d %(h)d:%(mi)d" % x["dt"]) for x in obs[2 * j]["found"]], d["some"] and "%(y)d-%(mo)d-%(d)d" % d))
print(len(items), "items", len(bad), "bad")
if "-v" in sys.argv:
    for it, b in bad.items():
        print(it[0], it[2], len(b), b[0])
out = dict(rows=sorted({(it[2], g.ROWS[it[1]]["a"], g.ROWS[it[1]]["b"]) for it in bad if it[0] == "row"}), dates=sorted({(it[2], it[3]) for it in bad if it[0] == "date"}))
if "-w" in sys.argv:
    json.dump(out, open(os.path.join(VERIF, "spec", "unsearchable.json"), "w", encoding="utf-8"), ensure_ascii=False, indent=0)
