"""C20: the build with the other regular expression engine answers every call alike."""
from vlib import *
from questions import question, answer
import surface


def near(r):
    """A question, often with a text that is written oddly: regular expressions differ at the edges."""
    q, _ = question(r)
    k = r.random()
    if k < 0.4:
        q["text"] = surface.damage(r, q["text"])
    elif k < 0.5:
        q["text"] = surface.script(r, q["text"])
    elif k < 0.6:
        q["text"] = r.choice([q["text"].upper(), q["text"].lower(), q["text"].title(), q["text"].swapcase(), " %s " % q["text"], q["text"].replace(" ", "\n")])
    return q


def check(rep):
    with ThreadPoolExecutor(2) as ex:
        std, wasm = ex.map(lambda t: build_driver(tags=t), ["", "re2_wasm"])
    r = rng("c20")
    for _ in range(12 if rep.thorough else 1):
        qs = [near(r) for _ in range(7000)]
        a = run_seq(std, [dict(q) for q in qs])
        b = run_seq(wasm, [dict(q) for q in qs])
        recs = []
        for i in range(len(qs)):
            recs.append(dict(q=i, a=answer(a[i]), free=False, engine="default"))
            recs.append(dict(q=i, a=answer(b[i]), free=False, engine="re2_wasm"))
        rep.extra["answers with a date"] = rep.extra.get("answers with a date", 0) + sum(1 for o in a if o["dt"]["some"] or o["found"])
        rep.sample(qs[0], a[0]["dt"], b[0]["dt"])
        for rec, why in rep.conform("TraceFunction", recs, shard_key=lambda x: x["q"]):
            q = qs[rec["q"]]
            rep.violation("%r (%s, %s): %s" % (q["text"], q["op"], rec["engine"], why), dict(request=q, default=a[rec["q"]], re2=b[rec["q"]]))
