"""C03: a call leaves the data of its caller alone."""
from vlib import *
from questions import question, CORPUS
import selgen


def filled(r, c):
    """Fills the lists of the configuration, now and then with things that are refused or in no order."""
    c["spare"] = True
    if r.random() < 0.6 and not c.get("langs"):
        c["langs"] = [r.choice(selgen.POOL) for _ in range(r.randint(1, 5))]
    if r.random() < 0.3:
        c["locales"] = [r.choice(list(selgen.LOCALES)) for _ in range(r.randint(1, 4))]
    if r.random() < 0.4:
        c["deflangs"] = [r.choice(selgen.POOL) for _ in range(r.randint(1, 4))]
    if r.random() < 0.4:
        c["req"] = [r.choice(["day", "month", "year", "Day", ""]) for _ in range(r.randint(1, 3))]
    if r.random() < 0.4:
        c["skip"] = [r.choice(["t", "um", "at", "de", "X", "", "año", "T "]) for _ in range(r.randint(1, 4))]
    if r.random() < 0.05:
        c["langs"] = ["zz"]
    if r.random() < 0.3:
        c["now"] = []
    c["given"] = r.random() < 0.3
    c["region"] = r.choice(["", "", "CH", "BE", "XX"])
    c["prev"] = r.random() < 0.3
    if r.random() < 0.2:
        c["pem"], c["rtp"] = True, True
    return c


def check(rep):
    drv = build_driver()
    rep.model("MCOwnership")
    try:
        tlc_model("MCOwnership", "MCOwnershipCareless")
        raise CheckError("the model of a library without the discipline should break it")
    except CheckError as e:
        if "LeftAlone is violated" not in str(e):
            raise
    r = rng("c03")
    reqs = []
    for d in range(12000 if rep.thorough else 1500):
        q, _ = question(r)
        c = filled(r, dict(q["cfg"]))
        fmts = q["formats"] or r.choice([[], ["2006-01-02", "02/01/2006"], ["2 January 2006"], ["x"], ["Jan 2006", "15:04", "2"]])
        det = [r.choice(selgen.POOL) for _ in range(r.randint(1, 4))] if r.random() < 0.3 else None
        if det and r.random() < 0.7:
            c.pop("langs", None), c.pop("locales", None)
        for k in range(r.randint(1, 4)):     # the same data serves several calls
            q2, _ = question(r, None if k else q["op"])
            reqs.append(dict(op=q2["op"], text=q2["text"], lang=q2["lang"], ptypes=q.get("ptypes"), detect=det, cfg=c, formats=fmts,
                             sess="d%d" % d, share="d%d" % d, snap=True, d=d))
            if k == 0:
                reqs[-1]["text"] = q["text"]
    obs = run_seq(drv, reqs)
    recs = [dict(d=q["d"], was=o["was"], now=o["now"], panic=o["panic"], hang=o["hang"], i=i) for i, (q, o) in enumerate(zip(reqs, obs))]
    rep.extra["calls that succeeded"] = sum(1 for o in obs if not o["iserr"])
    rep.sample(dict(request=reqs[5], was=obs[5]["was"], now=obs[5]["now"]))
    for rec, why in rep.conform("TraceOwnership", recs, shard_key=lambda x: x["d"]):
        rep.violation("%r (%s): %s" % (reqs[rec["i"]]["text"], reqs[rec["i"]]["op"], why), dict(request=reqs[rec["i"]], answer=obs[rec["i"]]))
