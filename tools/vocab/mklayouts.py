"""Builds spec/layouts.json: python3 mklayouts.py RAW [samples]. RAW is what patterns.js printed. Layouts that the tree does
not read on every sample (glue words it does not know, homographs, newer forms of the CLDR) are left out; run by hand only."""
import sys, os, json, random, datetime, collections
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
sys.path.insert(0, V + "/lib"); sys.dont_write_bytecode = True
from vlib import *
import laygen
raw = json.load(open(sys.argv[1]))
N = int(sys.argv[2]) if len(sys.argv) > 2 else 48
r = random.Random(7)
REG = json.load(open(V + "/spec/regions.json"))
known = set(REG) | set(REG.values()) | {e["loc"] for e in json.load(open(V + "/spec/vocabulary.json"))}
seen = set(); ents = []
for p in raw:
    if p["loc"] not in known: continue
    kinds = [k for k, _ in p["pat"]]
    if "mo" in kinds and not {"d", "y"} <= set(kinds): continue
    if "d" not in kinds and "M" not in kinds: continue
    o = "".join({"d": "D", "mo": "M", "M": "M", "y": "Y"}.get(k, "") for k in kinds)
    if len(set(o)) != len(o) or len(o) < 2: continue
    if len(set(kinds) & {"P"}) and "h" not in kinds: continue
    bad = any(len(set(p["words"][k])) < len(p["words"][k]) for k in kinds if k in p["words"])
    if bad: continue
    lay = []
    for k, v in p["pat"]:
        if k == "lit": lay.append(["lit", v])
        elif k in "MWP": lay.append([k, ""])
        else: lay.append([k, str(v)])
    e = (p["loc"], json.dumps(lay, ensure_ascii=False)) + tuple(json.dumps(p["words"].get(k, []) if k in kinds else [], ensure_ascii=False) for k in "MWP")
    if e not in seen:
        seen.add(e); ents.append(dict(loc=p["loc"], lay=lay, M=p["words"]["M"] if "M" in kinds else [], W=p["words"]["W"] if "W" in kinds else [], P=p["words"]["P"] if "P" in kinds else []))
print(len(raw), len(ents))
drv = build_driver()
def rounds(ents, lo, hi):
    reqs, meta = [], []
    for i, e in enumerate(ents):
        for n in range(lo, hi):
            q, x, g = laygen.ask(r, e, n)
            reqs.append(q); meta.append((i, laygen.written(e, x)))
    bad = {}
    for a in range(0, len(reqs), 400000):
        out = run_seq(drv, reqs[a:a+400000], shards=8)
        for q, o, (i, c) in zip(reqs[a:], out, meta[a:]):
            if not laygen.plain(c, o["dt"]): bad.setdefault(i, (q["text"], o["dt"]))
    return [e for i, e in enumerate(ents) if i not in bad], [(ents[i]["loc"],) + v for i, v in bad.items()]
dropped = []
for lo, hi in ((0, 4), (4, N)):
    ents, b = rounds(ents, lo, hi); dropped += b; print(hi, len(ents), len(b), flush=True)
json.dump(dropped, sys.stderr, ensure_ascii=False)
lays, words = [], []
lm, wm = {}, {}
def I(m, t, x):
    k = json.dumps(x)
    if k not in m: t.append(x); m[k] = len(t)
    return m[k]
rows = [[e["loc"], I(lm, lays, [dict(k=k, v=v) for k, v in e["lay"]])] + [I(wm, words, e[k]) if e[k] else 0 for k in "MWP"] for e in ents]
with open(V + "/spec/layouts.json", "w", encoding="utf-8") as f:
    f.write('{"lays":[\n' + ",\n".join(json.dumps(x, ensure_ascii=False, separators=(",", ":")) for x in lays) + '],\n"words":[\n' + ",\n".join(json.dumps(x, ensure_ascii=False, separators=(",", ":")) for x in words) + '],\n"rows":[\n' + ",\n".join(json.dumps(dict(loc=x[0], l=x[1], m=x[2], w=x[3], p=x[4]), separators=(",", ":")) for x in rows) + "]}\n")
