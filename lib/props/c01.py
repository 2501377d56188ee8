"""C01: the same call gives the same answer, whatever the history, the process and the host's time zone."""
from vlib import *
from vlib import _run_shard, _blank
from questions import question, sibling, answer

HOSTS = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Africa/Casablanca", "Australia/Lord_Howe", "America/St_Johns", "Europe/Lisbon"]


def parser_of(r, q):
    """Calls that need the same kind of parser may share one."""
    if q["op"] in ("hijri", "jalali", "poptz"):
        return ""
    k = r.random()
    if q.get("ptypes") or q.get("detect"):
        return "" if k < 0.4 else "%s %s" % (q.get("ptypes"), q.get("detect"))
    if k < 0.25 or (q["op"] == "searchlang" and k < 0.5):
        return ""
    return "default" if k < 0.6 and q["op"] != "searchlang" else r.choice("AB")


def histories(r, qs, procs, share):
    """For every process: its time zone and the questions it is asked, in its own order, on its own parsers."""
    res = []
    for p in range(procs):
        order = [i for i in range(len(qs)) if r.random() < share or p in (i % procs, (i + 1) % procs)]
        # neighbours in some processes, far apart in others; some asked twice
        if p % 2:
            r.shuffle(order)
        for i in r.sample(order, len(order) // 10):
            order.insert(r.randrange(len(order)), i)
        reqs = []
        for n, i in enumerate(order):
            reqs.append(dict(qs[i][0], id=n, sess=parser_of(r, qs[i][0]), q=i))
        res.append((HOSTS[p % len(HOSTS)], reqs))
    return res


def check(rep):
    drv = build_driver()
    rep.model("Charsets")
    must_break("Charsets", "CharsetsRepeated", "AsAlone")
    r = rng("c01")
    rounds = 12 if rep.thorough else 1
    for _ in range(rounds):
        qs = [question(r) for _ in range(1000)]
        # the same texts again, under other configurations
        qs += [sibling(r, r.choice(qs)) for _ in range(1000)]
        hist = histories(r, qs, 8, 0.5)

        def one(h):
            e = goenv()
            e.update(TZ=h[0], DRIVER_LIMIT_S="60")
            return _run_shard(drv, h[1], e, 800)
        recs = []
        with ThreadPoolExecutor(8) as ex:
            for (host, reqs), got in zip(hist, ex.map(one, hist)):
                for x in reqs:
                    o = _blank(x["id"])
                    o.update(got[x["id"]])
                    recs.append(dict(q=x["q"], a=answer(o, qs[x["q"]][1]), free=False, host=host, sess=x["sess"], at=x["id"]))
        rep.sample(recs[0], recs[-1])
        for rec, why in rep.conform("TraceFunction", recs, shard_key=lambda x: x["q"]):
            rep.violation("%r in %s: %s" % (qs[rec["q"]][0]["text"], rec["host"], why),
                          dict(request=qs[rec["q"]][0], answers=[x for x in recs if x["q"] == rec["q"]]))
