"""C02: concurrent calls return, race with nothing and answer as they do alone."""
from vlib import *
from questions import question, answer


def mix(r, n):
    """Requests for one process: parsers that are shared, the default parser and parsers of one's own."""
    reqs, free = [], []
    theme = r.random()
    for i in range(n):
        op = None
        if theme < 0.25:
            op = r.choice(["search", "parse"])
        elif theme < 0.35:
            op = r.choice(["hijri", "jalali", "poptz", "parse"])
        q, ts = question(r, op)
        q["ts"] = ts
        if q["op"] == "search" and not q["cfg"].get("langs") and r.random() < 0.8:
            q["cfg"]["langs"] = r.sample(["en", "fr", "de", "ru", "es"], r.randint(1, 3))   # all languages take long
        k = r.random()
        if q["op"] in ("hijri", "jalali", "poptz"):
            q["sess"] = ""
        elif q.get("ptypes") or q.get("detect"):
            q["sess"] = "" if k < 0.3 else "%s %s" % (q.get("ptypes"), q.get("detect"))
        elif q["op"] == "searchlang":
            q["sess"] = r.choice(["", "A", "A", "B"])
        else:
            q["sess"] = r.choice(["", "A", "A", "A", "B", "default", "default"])
        if r.random() < 0.3:                 # the callers also share the configuration
            q["share"] = "share %d" % i
        free.append(False)
        reqs.append(q)
    for i in range(n // 4):                  # calls that try previous locales, on parsers that do nothing else
        q, ts = question(r, "parse")
        q["cfg"]["prev"] = True
        q["ts"] = ts
        q["sess"] = r.choice(["P", "P", "Q"])
        q["ptypes"] = None
        q.pop("detect", None)
        reqs.append(q)
        free.append(True)
    return reqs, free


def check(rep):
    race, std = build_driver(race=True), build_driver()
    rep.model("MCSharing", "MCSharing3")
    rep.model("MCSharing")
    try:
        tlc_model("MCSharing", "MCSharingOpen")
        raise CheckError("the model of a parser without its mutex should have races")
    except CheckError as e:
        if "NoRace is violated" not in str(e):
            raise
    r = rng("c02")
    worlds = []
    for i in range(260 if rep.thorough else 22):
        reqs, free = mix(r, r.choice([6, 12, 20]))
        worlds.append((i, reqs, free))

    def together(w):
        i, reqs, free = w
        drv = race if i % 3 else std           # the race detector, and the plain build with more calls
        obs, wrong = run_par(drv, [dict(q) for q in reqs], r.choice([4, 8]), 2 if i % 3 else 6, seed=i, limit=240)
        return obs, wrong

    alone = run_seq(std, [dict(q, sess="", share="") for w in worlds for q in w[1]])
    recs, q0, where = [], 0, {}
    with ThreadPoolExecutor(3) as ex:
        for (i, reqs, free), (obs, wrong) in zip(worlds, ex.map(together, worlds)):
            if wrong:
                rep.violation("process %d: %s" % (i, wrong), dict(requests=reqs[:40]))
            for n, q in enumerate(reqs):
                where[q0 + n] = q
                recs.append(dict(q=q0 + n, a=answer(alone[q0 + n], q["ts"]), free=free[n]))
            for o in obs:
                recs.append(dict(q=q0 + o["id"], a=answer(o, reqs[o["id"]]["ts"]), free=free[o["id"]]))
                if o["mut"]:
                    rep.violation("%r: the caller's data changed" % reqs[o["id"]]["text"], dict(request=reqs[o["id"]], what=o["mut"]))
            q0 += len(reqs)
    rep.sample(where[0], recs[1]["a"])
    rep.assumptions.append("the accesses of the model are atomic: the race detector looks for accesses of the code that are not ordered")
    for rec, why in rep.conform("TraceFunction", recs, shard_key=lambda x: x["q"]):
        rep.violation("%r: %s" % (where[rec["q"]]["text"], why), dict(request=where[rec["q"]], answer=rec["a"]))
