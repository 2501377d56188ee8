"""C05: only the selected locales, in the documented order."""
from vlib import *
import selgen


def check(rep):
    drv = build_driver()
    rep.model("MCSelection", "MCSelectionBig" if rep.thorough else None)
    r = rng("c05")
    texts = selgen.texts(r, 400 if rep.thorough else 60)
    rd = selgen.Readers(drv, texts, sorted(selgen.LOCALES), selgen.POOL)
    cases = []
    for i in range(30000 if rep.thorough else 7000):
        pool = selgen.POOL
        t = r.choice(texts)
        if r.random() < 0.3 and rd.can[t]:          # languages that can read it
            pool = sorted({selgen.LOCALES[x]["lang"] for x in rd.can[t]} & set(selgen.POOL)) or pool
        elif r.random() < 0.2:
            pool = selgen.LANGS
        c = selgen.selection(r, pool)
        c["deflangs"] = [x for x in c["deflangs"] if x in selgen.POOL]
        detect = None
        if not c["locales"] and not c["langs"] and r.random() < 0.7:
            detect = [r.choice(pool) for _ in range(r.randint(0, 3))]
        elif r.random() < 0.1:
            detect = [r.choice(pool)]
        q, rec = selgen.call(r, t, rd, c, False, "s%d" % i, detect)
        cases.append((q, rec))
    selgen.decide(rep, drv, rd, cases)
