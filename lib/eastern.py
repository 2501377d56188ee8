"""Hijri and Jalali dates: what is written, the reference, and the text that says so."""
import json, os
from vlib import VERIF
import absgen, relgen, zonegen, surface
from props import c25

PERSIAN = json.load(open(os.path.join(VERIF, "spec", "persian.json")))
MONTHS, DAYS = list(PERSIAN["months"]), list(PERSIAN["days"])
WEEKDAYS = ["شنبه", "یکشنبه", "دوشنبه", "سه شنبه", "سه‌شنبه", "چهارشنبه", "چهار شنبه", "پنجشنبه", "پنج شنبه", "پنج‌شنبه", "جمعه"]
AM, PM = ["صباحا", "صباحًا", "صباحاً"], ["مساء", "مساءً"]
ORDERS = ["DMY", "DMY", "MDY", "YMD", "YDM", "MYD", "DYM"]
NOTIME = dict(h=0, mi=-1, s=-1, f=[], ap="")
SCRIPTS = [None, None, 0x0660, 0x06F0]


def clock(r, arabic):
    """A time as TimeOfDay has it, and its text."""
    w = c25.rnd_time(r)
    while w["mi"] < 0 and r.random() < 0.8:
        w = c25.rnd_time(r)
    if arabic and w["ap"] and r.random() < 0.7:
        t = c25.spell(r, dict(w, ap=""), True).rstrip() + " " + r.choice(AM if w["ap"] == "am" else PM)
    else:
        t = c25.spell(r, w, True)
    return w, t


def numbers(r, order, d, m, y, digits, lang):
    """The three numbers (or two, without a year) in the given order."""
    pad = r.random() < 0.6
    p = dict(D=("%02d" if pad else "%d") % d, M=("%02d" if pad else "%d") % m,
             Y=("%04d" % y if digits == 4 else "%02d" % y))
    return r.choice(["-", "/", "-", "/", " ", ". " if lang == "ar" else " "]).join(p[c] for c in order if c != "Y" or digits)


def setting(r, full):
    """Configuration and the zone of the reference; a preference only where day, month and year are written in full."""
    cfg = dict(rtp=r.random() < 0.4)
    if full and r.random() < 0.5:
        cfg.update(src=r.choice([0, 1, 2]), dom=r.choice([0, 1, 2]), moy=r.choice([0, 1, 2]))
    if full and r.random() < 0.15:
        cfg["strict"] = True
    elif full and r.random() < 0.15:
        cfg["req"] = ["day", "month", "year"][:r.randint(1, 3)]
    z = relgen.fixed(r.choice([0, 0, 3600, 12600, -18000, 20700, 28800, 50400, -43200]))
    return cfg, z


def finish(r, date, cfg, z, g, arabic, lead=""):
    """Adds time, offset and digit script to the text of a date: (text, time written, offset)."""
    t, w, off, text = False, NOTIME, z["std"], date
    if r.random() < 0.55:
        t = True
        w, c = clock(r, arabic)
        if arabic:
            text = r.choice([date + " " + c, date + ", " + c, date + " هـ, " + c, date + " هـ " + c, c + " " + date, date + "، " + c])
        elif w["mi"] >= 0 and not w["f"] and not w["ap"] and r.random() < 0.4:       # hour and minute and second in words
            two = lambda v: ("%d" if r.random() < 0.3 else "%02d") % v
            c = two(w["h"]) + " و " + two(w["mi"]) + " دقیقه" + (" و " + two(w["s"]) + " ثانیه" if w["s"] >= 0 else "")
            text = date + r.choice([" ساعت ", " ساعت ساعت ", "، ساعت "]) + c
        else:
            text = r.choice([date + " " + c, date + " ساعت " + c, date + "ساعت " + c, date + "، ساعت " + c, "ساعت " + c + " " + date])
    elif arabic and r.random() < 0.4:
        text = date + r.choice([" هـ", "هـ"])
    text = lead + text
    if r.random() < 0.2:
        ot, off = zonegen.offset_text(r)
        text += " " + ot
    k = r.choice(SCRIPTS) if r.random() < 0.85 else r.choice(surface.ZEROS)
    if k:
        text = surface.script(r, text, k)
    return text, t, w, off


def request(r, op, text, g, cfg, z, order):
    c = dict(cfg, now=relgen.now_in(g, z), nowzone=relgen.driver_zone(z))
    if order != "DMY" or r.random() < 0.5:
        c["order"] = order
    return dict(op=op, text=text, cfg=c)
