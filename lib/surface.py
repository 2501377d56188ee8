"""Ways to write a text differently: digit scripts, letter case, spaces; and damage to a text."""
import sys, unicodedata

# first digits of every run of ten decimal digits that Unicode has
ZEROS = [c for c in range(0x110000) if unicodedata.category(chr(c)) == "Nd" and unicodedata.digit(chr(c)) == 0]
ODD = "ſKİıßßΣςﬁǅ’‘ʼ＇\u00a0\u3000\u2009\u202f\u200b\u200e\u200f\u00ad،٬٫、。・年月日時分秒\u0301\u0307\u064e»«—–−‐/／：﹕\U0001f600\ufffd\u0000\x1b\t\n\r\x0b\x0c\u0085\u2028"


def script(r, t, zero=None):
    z = zero or r.choice(ZEROS)
    return "".join(chr(z + int(c)) if "0" <= c <= "9" else c for c in t)


def damage(r, t):
    """A text near t."""
    t = list(t)
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        k, i = r.random(), r.randrange(len(t) + 1)
        if k < 0.35:
            t.insert(i, r.choice(ODD))
        elif k < 0.5 and t:
            t.pop(min(i, len(t) - 1))
        elif k < 0.65 and t:
            t[min(i, len(t) - 1)] = r.choice(ODD)
        elif k < 0.8 and t:
            t.insert(i, t[min(i, len(t) - 1)])
        elif k < 0.9 and len(t) > 3:
            j = r.randrange(len(t))
            t[min(i, len(t) - 1)], t[j] = t[j], t[min(i, len(t) - 1)]
        else:
            t.insert(i, r.choice([" ", "  ", ".", ",", ":", "-", "/", "(", ")", "[", "'", "0", "12", "am", " UTC", "+01", "%", "\\"]))
    return "".join(t)


def invalid(r, t):
    """The text with bytes that are not UTF-8, as surrogate escapes (vlib writes them as they are)."""
    i = r.randrange(len(t) + 1)
    return t[:i] + r.choice(["\udc80", "\udcff", "\udce2\udc80", "\udcc0\udcaf", "\udcf4\udc90\udc80\udc80"]) + t[i:]
