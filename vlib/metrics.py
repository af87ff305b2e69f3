"""Deterministic text metrics of the stand-in Inkscape.

Shared by the stand-in process and by the reference models, so that a model can
predict what a faithful measurement of the *requested* text must return.
Every visible attribute that influences real text width influences this one.
"""

FONT_FACTOR = {"sans-serif": 1.0, "monospace": 1.15, "serif": 0.93}


def font_factor(font):
    f = FONT_FACTOR.get(font)
    if f is None:
        f = 0.8 + (sum(map(ord, font or "")) % 17) / 50.0
    return f


def advance(ch, font, size, bold, italic):
    if ch == " ":
        base = 0.3
    else:
        base = 0.35 + (ord(ch) % 11) * 0.04
    w = base * size * font_factor(font)
    if bold:
        w *= 1.125
    if italic:
        w *= 1.0625
    return w


def text_width(chars):
    """chars: iterable of (ch, font, size, bold, italic)"""
    return sum(advance(*c) for c in chars)
