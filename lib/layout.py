"""Documents that look like articles, with known words, lines, paragraphs, columns and reading order."""
from pdfgen import Doc, Font

VOCAB = ("the of and to in is that for it as was with be by on not he his but at are this have from or had an they which one you were all her she "
         "there would their we him been has when who will no more if out so up said what its about than into them can only other time new some "
         "could these two may first then do any like my now over such our man me even most made after also did many off before must well back "
         "through years much where your way down should because long each just state those people too mister how little good world make very year "
         "still see own work men day get here old between both being under three never know same last another while us might great go come since "
         "against right came take used himself few house american use place during high without again home around small however found mrs part "
         "school thought went say general once upon every left war until always away something fact water less public put think almost hand enough "
         "took far head yet government system set better told nothing night end why eyes called going look didnt asked later knew point next week "
         "number room algorithm extraction document character paragraph information retrieval semantic structure").split()


def font_widths(rng):
    w = {}
    for c in "abcdefghijklmnopqrstuvwxyz":
        w[c] = 278 if c in "ijlft" else 778 if c in "mw" else rng.choice([444, 500, 556])
    for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
        w[c] = rng.choice([611, 667, 722])
    for c in ".,;:-'()":
        w[c] = 300
    return w


class Para:
    """A paragraph: lines of words (strings), all in one font and size."""

    def __init__(self, kind="body"):
        self.kind = kind
        self.lines = []    # list of lists of words
        self.glyphs = []   # per line: per word: the glyphs
        self.page = None
        self.fs = None
        self.font = None
        self.col = 0

    def words(self):
        return [w for l in self.lines for w in l]


class Article:
    def __init__(self, rng, rot=0, ncols=None, fs=None, pages=1, page_rotate=0, hyphens=.15, fontkind=None, formulas=0, size=None, indent=None,
                 headings=True, extras=True, upper=0, pitch=None, scripts=None):
        self.rng, self.rot = rng, rot
        self.doc = Doc()
        self.doc.compress = rng.random() < .3
        self.fs = fs or rng.choice([8, 9, 10, 10, 11, 12])
        self.ncols = ncols or rng.choice([1, 1, 2])
        kind = fontkind or rng.choice(["simple", "simple", "simple", "type3", "cid"])
        wid = font_widths(rng)
        self.body = Font(b"NimbusRomNo9L-Regu", kind=kind, widths=wid)
        self.bold = Font(b"NimbusRomNo9L-Medi", kind=kind, widths={k: v + 40 for k, v in wid.items()}, weight=700, flags=32 + (1 << 18))
        self.ital = Font(b"NimbusRomNo9L-ReguItal", kind=kind, widths=wid, flags=96, italic_angle=-12)
        self.hyphens, self.formulas, self.headings, self.extras = hyphens, formulas, headings, extras
        w, h = size or rng.choice([(612, 792), (595, 842)])
        self.vw, self.vh = (w, h)
        dw, dh = (w, h) if rot in (0, 2) else (h, w)
        self.pitch = pitch or rng.choice([1.15, 1.2, 1.25])
        self.indent = rng.choice([0, 1.5]) if indent is None else indent
        self.gap = round(self.fs * rng.choice([.25, .28, .33]), 2)
        self.paras = []
        self.pages = []
        self.rules = []
        self.margin = rng.choice([55, 72])
        for _ in range(pages):
            self.p = self.doc.page(w=dw, h=dh, rotate=page_rotate)
            self.pages.append(self.p)
            self.fill_page()

    # --- coordinates ----------------------------------------------------------------------------------------------------------
    def dev(self, u, v):
        """The device coordinates of a point u along the direction of writing, v across it."""
        return {0: (u, v), 1: (self.vh - v, u), 2: (self.vw - u, self.vh - v), 3: (v, self.vw - u)}[self.rot]

    def width(self, word, font, fs):
        return sum(font.width(c) for c in word) * font.unit() * fs

    def word(self):
        r = self.rng
        w = r.choice(VOCAB)
        if r.random() < .1:
            w = w.capitalize()
        if r.random() < .08:
            w += r.choice([".", ",", ";"])
        return w

    def line(self, words, u, v, font, fs, para, gap=None):
        x, y = self.dev(u, v)
        n0 = len(self.p.glyphs)
        li = (len(self.paras), len(para.lines))
        self.p.text_run([list(w) for w in words], x, y, font, fs, rot=self.rot, line=li, block=len(self.paras), wordgap=gap or self.gap * fs / self.fs)
        para.lines.append(list(words))
        gl = self.p.glyphs[n0:]
        k, per = 0, []
        for w in words:
            per.append(gl[k:k + len(w)])
            k += len(w)
        para.glyphs.append(per)

    def paragraph(self, u0, u1, v, nlines, font=None, fs=None, kind="body", indent=None, col=0, hang=0):
        """Fills lines from u0 to u1 (the first base line is at v). Returns the position of the next base line."""
        r = self.rng
        font, fs = font or self.body, fs or self.fs
        gap = self.gap * fs / self.fs
        para = Para(kind)
        para.page, para.fs, para.font, para.col = self.p.num, fs, font, col
        indent = self.indent if indent is None else indent
        carry = None
        for i in range(nlines):
            u = u0 + (indent * fs if i == 0 else hang * fs)
            words, x = [], u
            last = i == nlines - 1
            end = u1 - (r.uniform(.3, .6) * (u1 - u0) if last and nlines > 1 else 0)
            while True:
                w = carry or self.word()
                carry = None
                ww = self.width(w, font, fs)
                if x + ww > end and words:
                    if not last and len(w) > 5 and w.isalpha() and r.random() < self.hyphens * 3:
                        k = r.randint(2, len(w) - 2)
                        carry = w
                        if x + self.width(w[:k] + "-", font, fs) <= end:
                            words.append(w[:k] + "-")
                            carry = w[k:]
                    elif not last:
                        carry = w
                    break
                words.append(w)
                x += ww + gap
            if last and words[-1].isalpha():
                words[-1] += "."
            # Justified lines: spread the space evenly.
            g = gap
            if not last and len(words) > 1 and i > 0 and kind == "body" and self.justify:
                wsum = sum(self.width(w, font, fs) for w in words)
                g2 = (end - u - wsum) / (len(words) - 1)
                if g2 < 1.7 * gap:
                    g = g2
            self.line(words, u, v, font, fs, para, gap=g)
            v += self.pitch * fs
        self.paras.append(para)
        return v

    justify = False

    def fill_page(self):
        r = self.rng
        fs, pitch = self.fs, self.pitch
        top, bottom = self.margin, self.vh - self.margin
        left, right = self.margin, self.vw - self.margin
        v = top + fs
        if self.extras and r.random() < .5 and len(self.pages) > 1:
            # A page header.
            self.paragraph(left, right, v, 1, font=self.ital, fs=fs, kind="marginal", indent=0)
            v += 3 * fs
        if self.headings and len(self.pages) == 1 and r.random() < .7:
            t = Para("title")
            t.page, t.fs, t.font = self.p.num, fs + 7, self.bold
            words = [self.word().capitalize() for _ in range(r.randint(2, 4))]
            w = sum(self.width(x, self.bold, fs + 7) for x in words) + (len(words) - 1) * self.gap * (fs + 7) / fs
            self.line(words, (self.vw - w) / 2, v + 10, self.bold, fs + 7, t)
            self.paras.append(t)
            v += 10 + 4 * fs
        sep = r.choice([20, 28])
        cw = (right - left - (self.ncols - 1) * sep) / self.ncols
        v0 = v
        for c in range(self.ncols):
            v = v0
            u0 = left + c * (cw + sep)
            while v < bottom - 6 * fs:
                if self.headings and r.random() < .25:
                    v = self.paragraph(u0, u0 + cw, v, 1, font=self.bold, fs=fs + 2, kind="heading", indent=0, col=c)
                    v += .8 * fs
                n = min(r.randint(2, 9), int((bottom - v) / (pitch * fs)))
                v = self.paragraph(u0, u0 + cw, v, n, col=c)
                v += r.choice([.7, 1, 1.5]) * fs


def reading_texts(a):
    """The paragraphs in the expected order: page by page, column by column."""
    return a.paras


def scripted(rng, rot=0):
    """A page of lines with subscripts and superscripts; the kind of each glyph is in its extra field ('base', 'sub', 'sup')."""
    d = Doc()
    w, h = (612, 792) if rot in (0, 2) else (792, 612)
    p = d.page(w=w, h=h)
    f = Font(b"CMR10", width=500)
    g2 = Font(b"CMR7", width=560)
    fs = rng.choice([9, 10, 11, 12])

    def put(t, u, v, font, size, kind, line):
        x, y = {0: (u, v), 1: (612 - v, u), 2: (612 - u, 792 - v), 3: (v, 792 - u)}[rot] if rot in (0, 2) else (
            (w - v, u) if rot == 1 else (v, h - u))
        return p.glyph(t, x, y, font, size, rot, extra=kind, line=line).w
    v = 80
    for li in range(rng.randint(3, 12)):
        u = 70
        while u < 400:
            for c in rng.choice(VOCAB):
                u += put(c, u, v, f, fs, "base", li)
            for kind, dv in rng.sample([("sub", .2), ("sup", -.35)], 2):
                if rng.random() < .25:
                    for c in rng.choice(["2", "ij", "n", "max", "1,2"]):
                        u += put(c, u, v + dv * fs * rng.choice([1, 1.2]), g2, fs * rng.choice([.6, .7, .75]), kind, li)
            if rng.random() < .05:
                for c in "small":
                    u += put(c, u, v, g2, fs * .8, "base", li)
            u += .3 * fs
        v += rng.choice([1.6, 2, 2.4]) * fs
    return d


def farmarks(rng):
    """Lines with marks that are drawn far above or below their letters, or in another size, so that they become words of their own."""
    d = Doc()
    f = Font(b"CMR10", width=500)
    for _ in range(rng.choice([1, 1, 2])):
        p = d.page(w=400, h=400)
        v = 60
        for _ in range(rng.randint(2, 8)):
            u = 50
            for _ in range(rng.randint(1, 6)):
                for c in rng.choice(VOCAB):
                    w = p.glyph(c, u, v, f, 10).w
                    if rng.random() < .15:
                        p.glyph(rng.choice(["\u0301", "\u0308", "\u00b4", "\u00a8", "\u0327", "\u02c6"]), u, v + rng.choice([-30, -22, -14, -11, 0, 0, 13, 26]), f, rng.choice([10, 10, 4]))
                    u += w
                u += 3
            v += rng.choice([12, 40, 60])
    return d


def anydoc(rng, k=None):
    """A document of any kind, for the checks that judge recorded states."""
    import chaos
    k = rng.randint(0, 7) if k is None else k
    if k == 7:
        return many(rng)
    if k == 0:
        return scripted(rng, 0 if rng.random() < .7 else rng.randint(1, 3))
    if k in (1, 2):
        return Article(rng, size=(rng.choice([420, 612]), rng.choice([400, 560])), rot=0 if rng.random() < .8 else rng.randint(1, 3),
                       pages=rng.choice([1, 1, 2])).doc
    if k == 3:
        return dense(rng)
    return chaos.document(rng)


def dense(rng):
    """Many words in a small area: rows and columns with gaps of all sizes, of a few sizes and fonts, with rules and images between."""
    d = Doc()
    for _ in range(rng.choice([1, 1, 2])):
        p = d.page(w=rng.choice([300, 612]), h=rng.choice([300, 500]))
        fonts = [Font(b"CMR10", width=500), Font(b"CMBX10", width=560, weight=700), Font(b"CMTI10", width=480, flags=96, italic_angle=-14)]
        fs = rng.choice([8, 10, 12])
        v = 30
        while v < p.h - 40:
            u = rng.choice([30, 30, 30, 45, 60, 100])
            f, s = rng.choice(fonts) if rng.random() < .2 else fonts[0], fs if rng.random() < .85 else rng.choice([fs - 2, fs + 2, fs + 6])
            while u < p.w - 60 and rng.random() < .96:
                word = rng.choice(VOCAB)[:8]
                if rng.random() < .05:
                    word = rng.choice(["(1)", "[12]", "•", "1.", "a)", "Table", "Figure", "∗", "†", "x=y", "{", "-", "sup", "∑", "word-"])
                word = list(word)
                if rng.random() < .06:
                    # Accented characters: the marks are drawn over the characters.
                    for i in rng.sample(range(len(word)), rng.randint(1, min(2, len(word)))):
                        word[i] = (word[i], rng.choice("´`¨\u0302\u0303\u030c"))
                u2 = p.text_run([word], u, v + rng.choice([0] * 15 + [.15 * fs, -.3 * fs]), f, s if rng.random() < .95 else .7 * s)
                u += u2 + rng.choice([.25] * 20 + [.3, .5, 1, 1.5, 2.5, 6]) * fs
            if rng.random() < .05:
                p.path([(30, v + .6 * fs), (rng.choice([100, p.w - 30]), v + .6 * fs)])
            if rng.random() < .03:
                p.image(60, v + 4, 140, v + 50)
                v += 50
            v += rng.choice([1.2] * 10 + [1.0, 1.5, 1.5, 2, 2.5, 3, 5]) * fs
        if rng.random() < .3:
            u = rng.randint(50, int(p.w) - 50)
            p.path([(u, 20), (u, p.h - 20)])
    return d


def many(rng):
    """Many small pages in many fonts: each page has a few lines; a sentence may be hyphenated from page to page."""
    d = Doc()
    n = rng.choice([5, 9, 10, 11, 13, 17, 26])
    names = [b"%s%s%d" % (rng.choice([b"", b"ABCDEF+", b"QWERTZ+"]), rng.choice([b"CMR", b"CMBX", b"Times-Italic", b"Foo"]), i) for i in range(rng.choice([1, 2, 9, 17, 34]))]
    fonts = [Font(nm, width=rng.choice([450, 500, 560]), kind=rng.choice(["simple", "simple", "type3", "cid"]), weight=rng.choice([None, 400, 700]),
                  flags=rng.choice([32, 96])) for nm in names]
    carry = None
    for i in range(n):
        p = d.page(w=rng.choice([200, 260, 320]), h=rng.choice([150, 240]), rotate=rng.choice([0] * 8 + [90, 270]))
        if rng.random() < .1:
            continue
        v = 30
        f, fs = rng.choice(fonts), rng.choice([8, 9, 10, 12])
        while v < p.h - 20 and rng.random() < .92:
            if rng.random() < .3:
                f = rng.choice(fonts)
            u, words = rng.choice([20, 20, 20, 30]), []
            while True:
                w = carry or rng.choice(VOCAB)
                carry = None
                if rng.random() < .01:
                    w = "".join(rng.choice(VOCAB) for _ in range(rng.randint(3, 40)))
                ww = sum(f.width(c) for c in w) * f.unit() * fs
                if words and u + ww > p.w - 20:
                    break
                words.append(w)
                u += ww + .3 * fs
            if rng.random() < .4 and len(words[-1]) > 4:
                k = rng.randint(1, len(words[-1]) - 1)
                carry = words[-1][k:]
                words[-1] = words[-1][:k] + "-"
            p.text_run([list(w) for w in words], 20, v, f, fs, wordgap=.3 * fs)
            v += rng.choice([1.2, 1.2, 1.2, 2, 4]) * fs
        for _ in range(rng.choice([0, 0, 0, 1, 3])):
            x, y = rng.uniform(20, p.w - 60), rng.uniform(10, p.h - 40)
            if rng.random() < .5:
                p.path([(x, y), (x + 40, y), (x + 40, y + 12)], b"S")
            else:
                p.push_clip(x, y, x + 40, y + 25)
                p.path([(x + 5, y + 5), (x + 30, y + 5), (x + 12, y + 20)], b"f")
                p.glyph("a", x + 10, y + 20, f, fs)
                p.pop()
    return d
