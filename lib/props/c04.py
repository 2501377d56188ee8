"""C04: previously used locales are tried first."""
from vlib import *
import selgen

FORMATS = [("2015-03-04", "2006-01-02"), ("13.04.2015", "02.01.2006"), ("12:30", "15:04")]


def history(r, rd, sess, n):
    """A history of calls on one parser, in a few languages, so that they meet again."""
    pool = r.sample(selgen.POOL, r.randint(2, 5))
    texts = r.sample(rd.texts, min(len(rd.texts), 10)) + r.sample(selgen.SHARED, 8)
    base = [selgen.selection(r, pool) for _ in range(3)]
    every = dict(locales=[], langs=[], deflangs=[], region="", given=False)
    wide = dict(every, langs=pool)
    out = []
    detect = [r.choice(pool)] if r.random() < 0.15 else None
    for _ in range(n):
        k = r.random()
        c = r.choice(base) if k < 0.5 else (wide if k < 0.7 else (every if k < 0.75 else selgen.selection(r, pool)))
        if c is every and detect:
            c = wide
        t = r.choice(texts)
        q, rec = selgen.call(r, t, rd, c, r.random() < 0.75, sess, detect)
        k = r.random()
        if k < 0.06:             # a custom format that matches the text as it stands
            t, f = r.choice(FORMATS)
            q, rec = selgen.call(r, t, rd, c, True, sess, detect)
            q["formats"] = [f]
            rec["raw"] = True
        elif k < 0.12:           # a search without the option
            q["op"], q["text"] = "search", "we met on 5 march 2014 and " + t
            q["cfg"]["prev"], rec["c"]["prev"] = False, False
            rec["keeps"] = True
        out.append((q, rec))
    return out


def check(rep):
    drv = build_driver()
    rep.model("MCSelection", "MCSelectionBig" if rep.thorough else None)
    r = rng("c04")
    texts = selgen.texts(r, 300 if rep.thorough else 60)
    names = sorted(selgen.LOCALES)
    rd = selgen.Readers(drv, texts, names, selgen.POOL)
    cases = []
    for i in range(1500 if rep.thorough else 320):
        # the package's own parser is shared by all calls of a process: one history there, others on parsers of their own
        sess = "default" if i == 0 else "s%d" % i
        cases += history(r, rd, sess, r.choice([3, 10, 20, 30]) if sess != "default" else 60)
        if sess == "default":
            for q, rec in cases:
                q.pop("detect", None)
                if rec["c"]["detect"]:
                    rec["c"]["detect"] = []
                    rec["keeps"] = True          # decided without detection: only its memory would matter
                    q["cfg"]["prev"] = False
    selgen.decide(rep, drv, rd, cases)
