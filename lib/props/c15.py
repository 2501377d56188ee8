"""C15: the surface of a text (script of digits, case, spaces) does not matter."""
from vlib import *
from questions import ask, answer
import surface

LETTERS = json.load(open(os.path.join(VERIF, "spec", "letters.json")))
SWAP = {chr(a): chr(b) for a, b in zip(LETTERS["upper"], LETTERS["lower"])}
SWAP.update({b: a for a, b in list(SWAP.items())})
UP = {chr(b): chr(a) for a, b in zip(LETTERS["upper"], LETTERS["lower"])}
LOW = {b: a for a, b in UP.items()}
WIDE = ["\u00a0", "\u3000", "\u202f", "\u2009", "\u2003", "\u205f", "\t", "\n", "\u200e", "\u200f", " \u200f"]


def digits(r, t):
    if r.random() < 0.25:  # every digit in a script of its own
        return "".join(surface.script(r, c) for c in t)
    return surface.script(r, t)


def case(r, t):
    k = r.random()
    if k < 0.4:
        return "".join(UP.get(c, c) for c in t)
    if k < 0.6:
        return "".join(LOW.get(c, c) for c in t)
    return "".join(SWAP.get(c, c) if r.random() < 0.5 else c for c in t)


def pad(r, t):
    return r.choice(["", " ", "  ", *WIDE]) + t + r.choice(["", " ", "   ", *WIDE])


def double(r, t):
    return "".join(c + (" " * r.randint(1, 2) if c == " " and r.random() < 0.7 else "") for c in t)


def wide(r, t):
    return "".join(r.choice(WIDE) if c == " " and r.random() < 0.7 else c for c in t)


ALL = [digits, case, pad, double, wide]


def rewrite(r, t):
    for f in r.sample(ALL, r.choice([1, 1, 1, 2, 5])):
        t = f(r, t)
    return t


def base(r):
    q = ask(r, r.choice(["parse"] * 10 + ["hijri", "jalali"]))
    q["formats"] = []  # custom formats describe the text as it is written
    q["cfg"].pop("skip", None)  # tokens are given as they are written
    return q


def check(rep):
    rep.model("MCSurface", cfg="MCSurfaceBig" if rep.thorough else None)
    drv = build_driver()
    r = rng("c15")
    for _ in range(10 if rep.thorough else 1):
        reqs, recs = [], []
        for k in range(4000):
            q = base(r)
            seen = [q["text"]]
            for _ in range(3):
                t = rewrite(r, q["text"])
                if t not in seen:
                    seen.append(t)
            for i, t in enumerate(seen):
                reqs.append(dict(q, text=t))
                recs.append(dict(q=k, t=[ord(c) for c in t], fresh=i == 0))
        obs = run_seq(drv, [dict(q) for q in reqs])
        for i, rec in enumerate(recs):
            rec.update(a=answer(obs[i]), i=i)
        first = {}
        for i, rec in enumerate(recs):
            first.setdefault(rec["q"], i)
        rep.extra["texts with a date"] = rep.extra.get("texts with a date", 0) + sum(1 for i in first.values() if obs[i]["dt"]["some"])
        rep.extra["texts"] = rep.extra.get("texts", 0) + len(first)
        rep.extra["rewritings"] = rep.extra.get("rewritings", 0) + len(reqs) - len(first)
        rep.sample(*[dict(text=reqs[i]["text"], observed=obs[i]["dt"]) for i in (0, 1)])
        for rec, why in rep.conform("TraceSurface", recs, shard_key=lambda x: x["q"]):
            i = rec["i"]
            if "CHECK ERROR" in why:
                raise CheckError("the harness rewrote %r to %r, which is another text" % (reqs[first[rec["q"]]]["text"], reqs[i]["text"]))
            rep.violation("%r written as %r: %s" % (reqs[first[rec["q"]]]["text"], reqs[i]["text"], why),
                          dict(request=reqs[i], written_otherwise=reqs[first[rec["q"]]]["text"], answer=obs[i], answer_otherwise=obs[first[rec["q"]]]))
