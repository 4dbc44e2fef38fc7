"""Reference models of the steps of the pipeline: what a step has to compute from the state that was recorded before it. They are written
from the documentation of the steps and are independent of the order in which the program evaluates its rules."""
import collections, unicodedata

import tables

TOL = 1e-4


def eq(a, b, t=TOL):
    return abs(a - b) <= t


def gt(a, b, t=TOL):
    return a > b + t


def lt(a, b, t=TOL):
    return a < b - t


def ge(a, b, t=TOL):
    return a >= b - t


def le(a, b, t=TOL):
    return a <= b + t


def ratios(s1, e1, s2, e2):
    s1, e1 = min(s1, e1), max(s1, e1)
    s2, e2 = min(s2, e2), max(s2, e2)
    o = max(0.0, min(e1, e2) - max(s1, s2))
    return (o / (e1 - s1) if e1 > s1 else 0, o / (e2 - s2) if e2 > s2 else 0)


def xover(a, b):
    return max(ratios(a.x0, a.x1, b.x0, b.x1))


def yover(a, b):
    return max(ratios(a.y0, a.y1, b.y0, b.y1))


def hgap(a, b):
    l, r = (a, b) if lt(a.x0, b.x0) else (b, a)
    return r.x0 - l.x1


def vgap(a, b):
    u, l = (a, b) if lt(a.y0, b.y0) else (b, a)
    return l.y0 - u.y1


def union(objs):
    return (min(o.x0 for o in objs), min(o.y0 for o in objs), max(o.x1 for o in objs), max(o.y1 for o in objs))


def boxdiff(a, b):
    return max(abs(x - y) for x, y in zip(a, b))


def modes(values):
    """The most frequent values."""
    c = collections.Counter(values)
    m = max(c.values(), default=0)
    return {v for v, n in c.items() if n == m}


def is_mode(v, values):
    if isinstance(v, str):
        return v in modes(values)
    return any(abs(v - k) < 1e-7 for k in modes(values))


class Box:
    def __init__(self, **k):
        self.__dict__.update(k)


# --- Diacritical marks ------------------------------------------------------------------------------------------------------------
def mark_of(c):
    """The (combining) mark that a character represents, or None."""
    if len(c.uni) != 1:
        return None
    u = tables.COMBINING.get(c.uni[0], c.uni[0])
    return u if 0x2b0 <= u <= 0x2ff or 0x300 <= u <= 0x36f else None


def merge_marks(chars):
    """Returns ({mark: base}, {base: (code points to be composed, marks)}, {base: box}) for the characters of a page, in extraction order. The
    boxes grow while marks are merged."""
    box = {c.oid: Box(x0=c.x0, y0=c.y0, x1=c.x1, y1=c.y1) for c in chars}
    base_of, cps, last = {}, {}, {}
    for i, c in enumerate(chars):
        u = mark_of(c)
        if u is None:
            continue
        prev = chars[i - 1] if i > 0 else None
        nxt = chars[i + 1] if i + 1 < len(chars) else None
        over = yover if c.rot in (1, 3) else xover
        po = over(box[prev.oid], box[c.oid]) if prev else 0
        no = over(box[c.oid], box[nxt.oid]) if nxt else 0
        if eq(po, 0) and eq(no, 0):
            continue
        b = prev if gt(po, no) else nxt
        if b is None:
            continue
        while b.oid in base_of:
            b = base_of[b.oid]
        if b is c:
            continue
        if b.oid not in cps:
            cps[b.oid] = list(b.uni)
        cps[b.oid] += [u] + cps.get(c.oid, [])[1:]
        base_of[c.oid] = b
        last[b.oid] = c
        bb, mb = box[b.oid], box[c.oid]
        bb.x0, bb.y0, bb.x1, bb.y1 = min(bb.x0, mb.x0), min(bb.y0, mb.y0), max(bb.x1, mb.x1), max(bb.y1, mb.y1)
    return base_of, cps, box, last


def compose(cps):
    s = "".join(chr(u) for u in cps)
    return unicodedata.normalize("NFC", s)


# --- Words ------------------------------------------------------------------------------------------------------------------------
def split_words(chars):
    """The words of a page: lists of characters."""
    words, cur = [], []
    a = None
    for c in chars:
        if c.markOf:
            continue
        new = not cur
        if cur:
            vert = c.rot in (1, 3)
            over = xover(c, a) if vert else yover(c, a)
            gap = vgap if vert else hgap
            thr = .15 * a.fs
            new = (a.rot != c.rot or a.wmode != c.wmode or lt(over, .5) or gt(gap(c, a), thr) or gt(gap(a, c), thr))
        if new:
            cur = []
            words.append(cur)
            a = Box(x0=c.x0, y0=c.y0, x1=c.x1, y1=c.y1, fs=0)
        cur.append(c)
        a.x0, a.y0, a.x1, a.y1 = min(a.x0, c.x0), min(a.y0, c.y0), max(a.x1, c.x1), max(a.y1, c.y1)
        a.rot, a.wmode, a.fs = c.rot, c.wmode, max(a.fs, c.fs)
    return words


def word_text(chars):
    return "".join(c.dtext if c.baseOf else ("" if c.markOf else c.text) for c in chars)


STACK_TEXTS = {"∑", "∏", "∫", "⊗"}
STACK_NAMES = {"summationdisplay", "productdisplay", "integraldisplay", "circlemultiplydisplay"}
STACK_WORDS = {"sup", "lim"}


def is_stack_base(w, st):
    return w.text in STACK_WORDS or any(c.text in STACK_TEXTS or c.name in STACK_NAMES for c in st.get(w.chars))


def stacked(words, st):
    """{word: base}: the words that belong to a stacked mathematical symbol."""
    part, bases = {}, set()
    for i, w in enumerate(words):
        if w.oid in part or not is_stack_base(w, st):
            continue
        for rng in (range(i - 1, -1, -1), range(i + 1, len(words))):
            for j in rng:
                o = words[j]
                if o.oid in part or o.oid in bases:
                    break
                if lt(xover(w, o), .5) or not lt(o.fs, w.fs, 1.0):
                    break
                part[o.oid] = w
                bases.add(w.oid)
    return part


# --- Statistics -------------------------------------------------------------------------------------------------------------------
def glyph_stats(st):
    cs = [c for p in st.pages for c in st.get(p["chars"])]
    if not cs:
        return None
    return dict(sizes=[c.fs for c in cs], names=[c.font for c in cs], aw=sum(c.x1 - c.x0 for c in cs) / len(cs),
                ah=sum(c.y1 - c.y0 for c in cs) / len(cs))


def word_stats(st):
    mf = st.stats["mostFreqFontSize"]
    heights, hg, vg = [], [], []
    for p in st.pages:
        ws = st.get(p["words"])
        for i, w in enumerate(ws):
            if lt(w.fs, mf, 1.0):
                continue
            heights.append(w.y1 - w.y0)
            if i == 0:
                continue
            v = ws[i - 1]
            if v.rot != w.rot or v.wmode != w.wmode or not eq(v.fs, mf, 1.0):
                continue
            o = yover(v, w)
            if ge(o, .5):
                hg.append(hgap(v, w))
            if le(o, 0):
                vg.append(vgap(v, w))
    return heights, hg, vg


def line_stats(st):
    alld, per = [], collections.defaultdict(list)
    for p in st.pages:
        for s in st.get(p["segments"]):
            ls = st.get(s.lines)
            for a, b in zip(ls, ls[1:]):
                if a.rot != b.rot or a.wmode != b.wmode:
                    continue
                d = b.bbb[1] - a.bbb[3]
                d = max(0.0, round_half_away(d))
                alld.append(d)
                if eq(a.fs, b.fs, 1.0):
                    per[b.fs].append(d)
    return alld, per


def round_half_away(d, n=1):
    import math
    x = d * 10 ** n
    return (math.floor(x + .5) if x >= 0 else math.ceil(x - .5)) / 10 ** n
