"""Random documents with known ground truth: pages of all sizes, origins and rotations; fonts of all kinds; text that runs in all
directions, of all sizes and colors; marks, formulas, clips, paths and images. The documents need not look sensible."""
from pdfgen import Doc, Font

WORDCHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
PUNCT = ".,;:!?()[]{}<>'\"/\\|@#$%&*+=~^_`"
NONASCII = ["ä", "ß", "é", "Ω", "я", "中", "€", "“", "–", "ﬁ", "\U0001f600", "ﷺ", "ffi", "Å", "ø", "½", "𝒳"]
MARKS = ["\u0300", "\u0301", "\u0302", "\u0303", "\u0304", "\u0308", "\u030a", "\u0327", "\u02c6", "\u02dc", "´", "`", "¨", "¸", "ˇ"]
SPACES = [" ", "\u00a0", "\t"]
MATHBASES = ["∑", "∏", "∫", "⊗"]
# Glyph names that the program maps to a text on its own (must be single characters in the ToUnicode map).
NAMED = {"f_i": "ﬁ"}


def fontname(rng, i):
    base = rng.choice(["Times", "Helvetica", "NimbusRomNo9L-Regu", "CMR10", "CMSY7", "Courier", "Arial-BoldMT", "Foo,Bold", "LucidaBright-Demi",
                       "Times-Italic", "Garamond-BlackItalic", "Univers55-Bold-Cond", "ITALICA+b-ITalic", "4Dings+x", "Gill-BOLDItalic", "BoldFace2", "A#B", 'we"ird\\name', "Minion 3", "x" * 60])
    if rng.random() < .4:
        base = "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(6)) + "+" + base
    return (base + ("" if rng.random() < .3 else "%d" % i)).encode()


def fonts(rng, n, kinds=("simple",) * 6 + ("type3", "type3", "cid", "cid")):
    out, names = [], set()
    while len(out) < n:
        k = rng.choice(kinds)
        nm = fontname(rng, len(out))
        if nm in names:
            continue
        names.add(nm)
        widths = {}
        for c in list(WORDCHARS + PUNCT):
            if rng.random() < .5:
                widths[c] = rng.choice([200, 250, 278, 333, 500, 556, 611, 722, 1000, rng.randint(100, 1200)])
        fl = rng.choice([32, 34, 4, 6, 33, 96, 98, 32 + (1 << 18), 4 + 64])
        fm = (0.001, 0, 0, 0.001, 0, 0)
        if k == "type3" and rng.random() < .3:
            s = rng.choice([0.0005, 0.002, 0.01])
            fm = (s, 0, 0, s, 0, 0)
            widths = {c: round(w * .001 / s) for c, w in widths.items()}
        f = Font(nm, kind=k, width=round(500 * .001 / (fm[0] if k == "type3" else .001)), widths=widths, flags=fl,
                 weight=rng.choice([None, None, 400, 500, 700, 900]), italic_angle=rng.choice([0, 0, 0, -12, -9.5]), fontmatrix=fm,
                 t3name=rng.random() < .6)
        out.append(f)
    return out


def size(rng):
    return rng.choice([10, 10, 10, 9, 12, 8, 7, 6, 14, 17.2, 24, rng.randint(40, 300) / 10, rng.randint(3, 90)])


def page(rng, doc, turn=True, origin=True):
    w, h = rng.choice([(612, 792), (595, 842), (300, 200), (842, 595), (400, 1200), (rng.randint(150, 1500), rng.randint(150, 1500))])
    p = doc.page(w=w, h=h, rotate=rng.choice([0, 0, 0, 90, 180, 270]) if turn else 0,
                 origin=(rng.randint(-300, 300), rng.randint(-300, 300)) if origin and rng.random() < .4 else (0, 0))
    if rng.random() < .12:
        # The page is its media box, whatever its crop box is.
        (a, b), (c, d) = p.origin, p.user_size()
        p.cropbox = (a + rng.choice([0, 20]), b + rng.choice([0, 10, 35]), a + c - rng.choice([0, 15]), b + d - rng.choice([0, 25]))
    return p


STEP = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}


class Maker:
    """Draws on the pages of a document."""

    def __init__(self, rng, nfonts=3, npages=None, turn=True, origin=True, rots=True, kinds=None, clips=True, far=False):
        self.rng = rng
        self.doc = Doc()
        self.doc.compress = rng.random() < .2
        self.fonts = fonts(rng, nfonts, **({"kinds": kinds} if kinds else {}))
        self.rots, self.clips = rots, clips
        for _ in range(npages or rng.choice([1, 1, 1, 2, 3])):
            page(rng, self.doc, turn, origin)
        self.p = self.doc.pages[0]

    def font(self):
        return self.rng.choice(self.fonts)

    def rot(self):
        return self.rng.choice([0, 0, 0, 0, 1, 2, 3]) if self.rots else 0

    def where(self, margin=30):
        r, p = self.rng, self.p
        m = min(margin, p.w / 4, p.h / 4)
        return r.randint(int(m * 10), int((p.w - m) * 10)) / 10, r.randint(int(m * 10), int((p.h - m) * 10)) / 10

    def char(self, spaces=.02, non=.1):
        r = self.rng
        x = r.random()
        if x < spaces:
            return r.choice(SPACES)
        if x < spaces + non:
            return r.choice(NONASCII)
        if x < spaces + non + .1:
            return r.choice(PUNCT + "-")
        return r.choice(WORDCHARS)

    def glyph(self, text, x, y, font, fs, rot, **k):
        return self.p.glyph(text, x, y, font, fs, rot, **k)

    def run(self, n=None, font=None, fs=None, rot=None, x=None, y=None, gap=None):
        """Glyphs that follow each other in the direction of writing, with various gaps."""
        r = self.rng
        font = font or self.font()
        fs = fs or size(r)
        rot = self.rot() if rot is None else rot
        if x is None:
            x, y = self.where()
        dx, dy = STEP[rot]
        hs = r.choice([1.0] * 8 + [.7, 1.3])
        split = r.choice([(1, 1)] * 6 + [(2, 1), (1, .5), (.5, 2), (fs, 1)])
        out = []
        for _ in range(n or r.randint(1, 14)):
            t = self.char()
            g = self.glyph(t, x, y, font, fs, rot, hscale=hs, split=split, rise=r.choice([0] * 12 + [2, -1.5]))
            out.append(g)
            adv = g.w + (gap if gap is not None else r.choice([0] * 12 + [.03 * fs, .05 * fs, .3 * fs, .6 * fs, 2 * fs, -.2 * fs, -.05 * fs]))
            x, y = x + dx * adv, y + dy * adv
        return out

    def color(self):
        r = self.rng
        if r.random() < .5:
            self.p.set_color(0, 0, 0)
        else:
            self.p.set_color(*(r.choice([0, 1, .5, r.randint(0, 255) / 255]) for _ in range(3)), fill=r.choice([None, None, (1, 0, .5), (0, 0, 0)]))
        if r.random() < .2:
            self.p.render_mode(r.choice([0, 0, 0, 1, 2, 3]))

    def box(self, big=False):
        r, p = self.rng, self.p
        w = r.randint(4, int(p.w * (.8 if big else .3)))
        h = r.randint(4, int(p.h * (.8 if big else .3)))
        x = r.randint(1, int(p.w - w - 1)) + r.choice([0, .3])
        y = r.randint(1, int(p.h - h - 1)) + r.choice([0, .4])
        return x, y, min(x + w, p.w - .5), min(y + h, p.h - .5)

    def path(self):
        r = self.rng
        k = r.random()
        x0, y0, x1, y1 = self.box()
        how = r.choice([b"S", b"f", b"B", b"s", b"f*"])
        if k < .35:
            self.p.path([(x0, y0), (x1, y0)], b"S")
        elif k < .55:
            self.p.path([(x0, y0), (x0, y1)], b"S")
        elif k < .8:
            more = []
            for _ in range(r.choice([0, 0, 0, 0, 1, 1, 5])):
                u0, v0, u1, v1 = self.box()
                more.append([(u0, v0), (u1, v0), (u1, v1), (u0, v1)])
            self.p.path([(x0, y0), (x1, y0), (x1, y1), (x0, y1)], how, closed=True, rng=r, more=more)
        elif k < .95:
            self.p.path([(r.uniform(x0, x1), r.uniform(y0, y1)) for _ in range(r.randint(2, 8))], how, rng=r, more=[
                [(r.uniform(x0, x1), r.uniform(y0, y1)) for _ in range(r.randint(2, 5))] for _ in range(r.choice([0, 0, 1, 2]))])
        else:
            self.p.path([(x0 - 1000, y0), (x1 + 1000, y1 - 700)], b"S")

    def image(self):
        x0, y0, x1, y1 = self.box()
        r = self.rng
        up = self.p.rotate // 90
        self.p.image(x0, y0, x1, y1, inline=r.random() < .3, mask=r.random() < .3, turn=up if r.random() < .7 else r.randint(0, 3))


def document(rng, **k):
    """A document with a bit of everything."""
    items, big, nfonts = [0, 3, 8, 15, 25], rng.random(), rng.randint(1, 5)
    if big < .03 and "npages" not in k:
        # Many pages and fonts.
        k, nfonts, items = dict(k, npages=rng.randint(10, 26)), rng.randint(8, 24), [0, 1, 2, 3, 6]
    elif big < .05:
        # Much on a page.
        items = [0, 100, 180]
    m = Maker(rng, nfonts=nfonts, **k)
    for p in m.doc.pages:
        m.p = p
        depth = 0
        for _ in range(rng.choice(items)):
            x = rng.random()
            if x < .5:
                m.run()
            elif x < .6:
                m.glyph(m.char(), *m.where(), m.font(), size(rng), m.rot())
            elif x < .7:
                m.path()
            elif x < .78:
                m.image()
            elif x < .83:
                m.color()
            elif x < .84:
                p.set_opacity(rng.choice([1, .5, .25]))
            elif x < .92 and m.clips and depth < 3:
                b = m.box(big=True)
                c = p.clip or (0, 0, p.w, p.h)
                n = (max(c[0], b[0]), max(c[1], b[1]), min(c[2], b[2]), min(c[3], b[3]))
                if n[2] - n[0] > 5 and n[3] - n[1] > 5:
                    p.push_clip(*b)
                    depth += 1
            elif depth:
                p.pop()
                depth -= 1
        for _ in range(depth):
            p.pop()
        if m.clips and rng.random() < .2:
            p.begin_form(*rng.choice([m.box(big=True), (0, 0, p.w, p.h), (-5, -5, p.w + 5, p.h + 5)]))
            for _ in range(rng.randint(1, 4)):
                rng.choice([m.run, m.path, m.image])()
            p.end_form()
    return m.doc
