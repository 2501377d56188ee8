"""C11: relative dates are exact calendar arithmetic."""
from vlib import *
import relgen


def check(rep):
    drv = build_driver()
    rep.model("MCZones")
    rep.model("MCRelative")
    r = rng("c11")
    judge(rep, drv, "TraceRelative", [relgen.rnd_case(r) for _ in range(60000 if rep.thorough else 12000)])
