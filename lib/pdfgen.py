"""A generator of PDF files with known ground truth. Everything that is drawn is also recorded (text, position, font, ...), so that
the monitors can compare what the program extracted with what is really in the file."""
import math, zlib


def esc_name(b):
    """Writes a PDF name; b is bytes."""
    out = b""
    for c in b:
        if 0x21 <= c <= 0x7e and chr(c) not in "#()<>[]{}/%":
            out += bytes([c])
        else:
            out += b"#%02x" % c
    return b"/" + out


def num(x):
    if isinstance(x, int):
        return b"%d" % x
    s = ("%.4f" % x).rstrip("0").rstrip(".")
    return (s if s not in ("", "-0") else "0").encode()


class Writer:
    def __init__(self):
        self.objs = [None]  # index = object number

    def alloc(self):
        self.objs.append(None)
        return len(self.objs) - 1

    def add(self, body):
        n = self.alloc()
        self.objs[n] = body
        return n

    def stream(self, data, extra=b"", compress=False):
        if compress:
            data = zlib.compress(data)
            extra += b" /Filter /FlateDecode"
        return self.add(b"<< /Length %d %s >>\nstream\n" % (len(data), extra) + data + b"\nendstream")

    def output(self, root, extra_trailer=b""):
        out = bytearray(b"%PDF-1.5\n%\xe2\xe3\xcf\xd3\n")
        offs = [0]
        for i, o in enumerate(self.objs):
            if i == 0:
                continue
            offs.append(len(out))
            out += b"%d 0 obj\n" % i + (o if o is not None else b"null") + b"\nendobj\n"
        xref = len(out)
        out += b"xref\n0 %d\n0000000000 65535 f \n" % len(self.objs)
        for o in offs[1:]:
            out += b"%010d 00000 n \n" % o
        out += b"trailer\n<< /Size %d /Root %d 0 R %s >>\nstartxref\n%d\n%%%%EOF\n" % (len(self.objs), root, extra_trailer, xref)
        return bytes(out)


class Font:
    """A font. kinds: 'simple' (Type1 without font file, own widths and ToUnicode map), 'type3', 'cid' (Identity-H),
    'cidv' (Identity-V), 'cidm' (an own CMap with codes of one to three bytes), 'std' (one of the standard 14 fonts, WinAnsi)."""

    def __init__(self, name=b"Times", kind="simple", width=500, widths=None, flags=32, weight=None, italic_angle=0, fontfile=None,
                 names=None, fontfile_key=b"/FontFile", fontmatrix=(0.001, 0, 0, 0.001, 0, 0), extra=b"", t3name=True):
        self.name, self.kind, self.defw, self.widths, self.flags = name, kind, width, dict(widths or {}), flags
        self.weight, self.italic_angle, self.fontfile, self.names = weight, italic_angle, fontfile, dict(names or {})
        self.fontfile_key, self.fontmatrix, self.extra, self.t3name = fontfile_key, fontmatrix, extra, t3name
        self.codes = {}  # text -> code
        self.rev = {}

    def code(self, text):
        if text not in self.codes:
            if self.kind in ("cid", "cidv"):
                c = len(self.codes) + 1
            elif self.kind == "cidm":
                # The codes of one, two and three bytes; the CID is another number.
                n = len(self.codes)
                c = (0x30 + n // 3, 0x8140 + 0x101 * (n // 3), 0xe01020 + 0x010101 * (n // 3))[n % 3]
            else:
                # Prefer the ASCII code.
                c = ord(text) if len(text) == 1 and 32 <= ord(text) < 127 and ord(text) not in self.rev else None
                if c is None:
                    c = 255
                    while c in self.rev or (32 <= c < 127):
                        c -= 1
                    if c < 1:
                        c = next(x for x in range(126, 32, -1) if x not in self.rev)
            self.codes[text] = c
            self.rev[c] = text
        return self.codes[text]

    def width(self, text):
        return self.widths.get(text, self.defw)

    def unit(self):
        return self.fontmatrix[0] if self.kind == "type3" else 0.001

    def enc(self, text):
        c = self.code(text)
        if self.kind == "cidm":
            return c.to_bytes((c.bit_length() + 7) // 8, "big")
        return bytes([c >> 8, c & 255]) if self.kind in ("cid", "cidv") else bytes([c])

    def cid(self, text):
        """The CID of a glyph of a font with an own CMap."""
        return 3 + (list(self.codes).index(text) * 37 + 50) % 1009

    def cmap(self):
        ents = [b"<%s> %d" % (self.enc(t).hex().encode(), self.cid(t)) for t in self.codes]
        b = (b"/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CMapName /Own def\n/CMapType 1 def\n/WMode 0 def\n"
             b"3 begincodespacerange\n<00> <7f>\n<8100> <9fff>\n<e00000> <efffff>\nendcodespacerange\n")
        for i in range(0, len(ents), 100):
            b += b"%d begincidchar\n" % len(ents[i:i + 100]) + b"\n".join(ents[i:i + 100]) + b"\nendcidchar\n"
        return b + b"endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n"

    def glyphname(self, text):
        return self.names.get(text)

    def tounicode(self):
        two = self.kind in ("cid", "cidv")
        ents = []
        for t, c in sorted(self.codes.items(), key=lambda kv: kv[1]):
            u = t.encode("utf-16-be").hex()
            ents.append(("<%s> <%s>" % (self.enc(t).hex(), u)).encode())
        b = (b"/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CMapName /X def\n/CMapType 2 def\n1 begincodespacerange\n"
             + (b"<0000> <ffff>" if two else b"<00> <7f> <8100> <9fff> <e00000> <efffff>" if self.kind == "cidm" else b"<00> <ff>") + b"\nendcodespacerange\n")
        for i in range(0, len(ents), 100):
            ch = ents[i:i + 100]
            b += b"%d beginbfchar\n" % len(ch) + b"\n".join(ch) + b"\nendbfchar\n"
        return b + b"endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n"

    def write(self, w):
        if self.kind == "std":
            return w.add(b"<< /Type /Font /Subtype /Type1 /BaseFont %s /Encoding /WinAnsiEncoding >>" % esc_name(self.name))
        tu = w.stream(self.tounicode())
        if self.kind in ("cid", "cidv", "cidm"):
            desc = w.add(b"<< /Type /FontDescriptor /FontName %s /Flags %d /FontBBox [0 -200 1000 900] /ItalicAngle %s /Ascent 800 "
                         b"/Descent -200 /CapHeight 700 /StemV 80 >>" % (esc_name(self.name), self.flags, num(self.italic_angle)))
            ws = b" ".join(b"%d [%s]" % (self.cid(t) if self.kind == "cidm" else c, num(self.width(t))) for t, c in self.codes.items())
            enc = b"/Identity-V" if self.kind == "cidv" else b"/Identity-H"
            if self.kind == "cidm":
                enc = b"%d 0 R" % w.stream(self.cmap(), b"/Type /CMap /CMapName /Own /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >>")
            df = w.add(b"<< /Type /Font /Subtype /CIDFontType2 /BaseFont %s /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) "
                       b"/Supplement 0 >> /FontDescriptor %d 0 R /DW %s /W [%s] >>" % (esc_name(self.name), desc, num(self.defw), ws))
            return w.add(b"<< /Type /Font /Subtype /Type0 /BaseFont %s /Encoding %s /DescendantFonts [%d 0 R] /ToUnicode %d 0 R >>" % (
                esc_name(self.name), enc, df, tu))
        first, last = 0, 255
        ws = []
        for c in range(first, last + 1):
            t = self.rev.get(c)
            ws.append(num(self.width(t)) if t is not None else b"0")
        diffs = []
        for c, t in sorted(self.rev.items()):
            gn = self.names.get(t)
            if self.kind == "type3" and gn is None:
                gn = "g%d" % c
            if gn is not None:
                diffs.append(b"%d %s" % (c, esc_name(gn.encode())))
        if self.kind == "type3":
            procs = []
            for c, t in self.rev.items():
                gn = self.names.get(t) or "g%d" % c
                s = w.stream(b"%s 0 d0 0 0 %s 700 re f" % (num(self.width(t)), num(max(1, self.width(t) - 50))))
                procs.append(esc_name(gn.encode()) + b" %d 0 R" % s)
            nm = b"/Name %s" % esc_name(self.name) if self.t3name else b""
            return w.add(b"<< /Type /Font /Subtype /Type3 %s /FontBBox [0 -200 1000 900] /FontMatrix [%s] /CharProcs << %s >> /Encoding "
                         b"<< /Type /Encoding /Differences [%s] >> /FirstChar %d /LastChar %d /Widths [%s] /ToUnicode %d 0 R "
                         b"/Resources << >> >>" % (nm, b" ".join(("%g" % x).encode() for x in self.fontmatrix), b" ".join(procs),
                                                   b" ".join(diffs), first, last, b" ".join(ws), tu))
        ff = b""
        if self.fontfile is not None:
            l1, l2, l3, data = self.fontfile
            extra = b"" if l1 is None else b" ".join(b"/Length%d %s" % (i + 1, x if isinstance(x, bytes) else b"%d" % x) for i, x in enumerate((l1, l2, l3)) if x != b"")
            ff = b"%s %d 0 R" % (self.fontfile_key, w.stream(data, extra, compress=False))
        wt = b"/FontWeight %d" % self.weight if self.weight is not None else b""
        desc = w.add(b"<< /Type /FontDescriptor /FontName %s /Flags %d /FontBBox [0 -200 1000 900] /ItalicAngle %s /Ascent 800 "
                     b"/Descent -200 /CapHeight 700 /StemV 80 %s %s >>" % (esc_name(self.name), self.flags, num(self.italic_angle), wt, ff))
        enc = b"/Encoding << /Type /Encoding /Differences [%s] >>" % b" ".join(diffs) if diffs else b""
        return w.add(b"<< /Type /Font /Subtype /Type1 /BaseFont %s /FirstChar %d /LastChar %d /Widths [%s] /FontDescriptor %d 0 R %s "
                     b"/ToUnicode %d 0 R %s >>" % (esc_name(self.name), first, last, b" ".join(ws), desc, enc, tu, self.extra))


class Glyph:
    """The ground truth about one drawn glyph. x, y: the origin in device space (y downwards); rot as defined by the program
    (0: upright, 1: running downwards, 2: upside down, 3: running upwards); w: the advance width (in device units)."""
    __slots__ = ("text", "page", "x", "y", "w", "fs", "rot", "font", "color", "clip", "name", "word", "line", "block", "idx", "extra", "opacity", "vert")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def bbox(self):
        a, d = 0.95 * self.fs, -0.35 * self.fs
        x, y, w = self.x, self.y, self.w
        if self.rot == 0:
            return (x, y - a, x + w, y - d)
        if self.rot == 1:
            return (x + d, y, x + a, y + w)
        if self.rot == 2:
            return (x - w, y + d, x, y + a)
        return (x - a, y - w, x - d, y)


class Page:
    def __init__(self, doc, w=612, h=792, origin=(0, 0), rotate=0, cropbox=None):
        self.doc, self.w, self.h, self.origin, self.rotate, self.cropbox = doc, w, h, origin, rotate, cropbox
        self.ops = []
        self.glyphs = []
        self.shapes = []
        self.images = []
        self.num = None
        self.color = (0, 0, 0)
        self.clip = None
        self.opacity = 1.0
        self._saved = []
        self._forms = []
        self.xobjs = {}
        self.broken = False
        self.raw_contents = None
        self.gstates = {}
        self.annots = []
        self.annots_indirect = False

    # Device space (72 dpi, origin at the upper left of the rotated media box, of size w x h) to user space.
    def user(self, x, y):
        ox, oy = self.origin
        w, h = self.user_size()
        if self.rotate == 0:
            return (x + ox, h - y + oy)
        if self.rotate == 90:
            return (y + ox, x + oy)
        if self.rotate == 180:
            return (w - x + ox, y + oy)
        return (w - y + ox, h - x + oy)

    def user_size(self):
        return (self.w, self.h) if self.rotate in (0, 180) else (self.h, self.w)

    def upt(self, x, y):
        a, b = self.user(x, y)
        return b"%s %s" % (num(a), num(b))

    def udir(self, rot):
        """The user space direction (cos, sin) of text that runs in the direction rot on the page."""
        r = (rot - self.rotate // 90) % 4
        return {0: (1, 0), 1: (0, -1), 2: (-1, 0), 3: (0, 1)}[r]

    def op(self, s):
        self.ops.append(s if isinstance(s, bytes) else s.encode())

    def glyph(self, text, x, y, font, fs, rot=0, word=None, line=None, block=None, hscale=1.0, rise=0, split=(1, 1), extra=None):
        """Draws one glyph with its origin at (x, y) in device space."""
        f = self.doc.fontkey(font)
        c, s = self.udir(rot)
        # user space matrix [a b c d e f] for text running in direction rot (1 = downwards on the page).
        # The size is the product of the font size, the scale of the text matrix and the scale of the transformation matrix.
        ts, cs = split
        # The rise moves the glyph perpendicularly to the direction of writing.
        X, Y = self.user(x, y)
        X, Y = X + s * rise, Y - c * rise
        if cs != 1:
            self.op(b"q %s 0 0 %s 0 0 cm" % (num(cs), num(cs)))
        self.op(b"BT /%s %s Tf %s %s %s %s %s %s Tm %s%s<%s> Tj ET" % (
            f.encode(), num(fs / ts / cs), num(c * ts), num(s * ts), num(-s * ts), num(c * ts), num(X / cs), num(Y / cs),
            b"" if hscale == 1.0 else num(hscale * 100) + b" Tz ", b"" if rise == 0 else num(rise / ts / cs) + b" Ts ",
            font.enc(text).hex().encode()))
        if cs != 1:
            self.op(b"Q")
        elif hscale != 1.0 or rise:
            self.op(b"BT 100 Tz 0 Ts ET")
        g = Glyph(text=text, page=self, x=x, y=y, w=font.width(text) * font.unit() * fs * hscale, fs=fs, rot=rot, font=font,
                  color=self.color, clip=self.clip, name=font.glyphname(text), word=word, line=line, block=block,
                  idx=len(self.glyphs), extra=extra, opacity=self.opacity)
        self.glyphs.append(g)
        return g

    def text_run(self, pieces, x, y, font, fs, rot=0, line=None, block=None, charspace=0, wordgap=None, tj=True):
        """Draws the words of a line with one TJ operator. pieces: a list of words (each a list of glyph texts or a string).
        Returns the x-coordinate (along the direction of writing) after the last glyph."""
        if wordgap is None:
            wordgap = 0.25 * fs
        f = self.doc.fontkey(font)
        c, s = self.udir(rot)
        dx, dy = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}[rot]
        out = [b"BT /%s %s Tf %s %s %s %s %s Tm [" % (f.encode(), num(fs), num(c), num(s), num(-s), num(c), self.upt(x, y))]
        cur = 0.0
        for i, word in enumerate(pieces):
            if i > 0:
                out.append(b"%s" % num(-wordgap / fs * 1000))
                cur += wordgap
            wid = (self.num_words() if line is None else (line, i))
            items = []
            for item in word:
                # A pair is a character and a mark that is drawn over it, at the same position.
                items += [(item[0], 0), (item[1], font.width(item[0]))] if isinstance(item, tuple) else [(item, 0)]
            for ch, back in items:
                if back:
                    out.append(num(back * font.unit() * 1000))
                    cur -= back * font.unit() * fs
                w = font.width(ch) * font.unit() * fs
                g = Glyph(text=ch, page=self, x=x + dx * cur, y=y + dy * cur, w=w, fs=fs, rot=rot, font=font, color=self.color,
                          clip=self.clip, name=font.glyphname(ch), word=wid, line=line, block=block, idx=len(self.glyphs),
                          opacity=self.opacity)
                self.glyphs.append(g)
                out.append(b"<%s>" % font.enc(ch).hex().encode())
                cur += w
                if back:
                    rest = back * font.unit() * fs - w
                    out.append(num(-rest / fs * 1000))
                    cur += rest
                if charspace and not back:
                    out.append(num(-charspace / fs * 1000))
                    cur += charspace
            self.doc._words += 1
        out.append(b"] TJ ET")
        self.op(b" ".join(out))
        return cur

    def num_words(self):
        return ("w", self.doc._words)

    def set_color(self, r, g, b, fill=None):
        """The color of a character is the stroking color (as documented); fill: another color for filling."""
        self.color = (r, g, b)
        if r == g == b:
            self.op(b"%s G" % num(r))
        else:
            self.op(b"%s %s %s RG" % (num(r), num(g), num(b)))
        self.op(b"%s %s %s rg" % tuple(num(v) for v in fill or (r, g, b)))

    def render_mode(self, n):
        """0: filled, 1: stroked, 2: both, 3: invisible (as in scanned pages with a layer of text)."""
        self.op(b"%d Tr" % n)

    def push_clip(self, x0, y0, x1, y1):
        """Device coordinates."""
        a, b = self.user(x0, y0), self.user(x1, y1)
        self.op(b"q %s %s %s %s re W n" % (num(min(a[0], b[0])), num(min(a[1], b[1])), num(abs(b[0] - a[0])), num(abs(b[1] - a[1]))))
        self._saved.append((self.clip, self.color, self.opacity))
        c = self.clip or (0, 0, self.w, self.h)
        self.clip = (max(c[0], x0), max(c[1], y0), min(c[2], x1), min(c[3], y1))

    def pop(self):
        self.op(b"Q")
        self.clip, self.color, self.opacity = self._saved.pop()

    def set_opacity(self, a):
        self.opacity = a
        k = "G%d" % round(a * 100)
        self.gstates[k] = b"/CA %s /ca %s" % (num(a), num(a))
        self.op(b"/%s gs" % k.encode())

    def begin_form(self, x0, y0, x1, y1):
        """What follows is drawn by a form XObject with the given bounding box (device coordinates)."""
        self._forms.append((self.ops, (x0, y0, x1, y1)))
        self._saved.append((self.clip, self.color, self.opacity))
        c = self.clip or (0, 0, self.w, self.h)
        self.clip = (max(c[0], x0), max(c[1], y0), min(c[2], x1), min(c[3], y1))
        self.ops = []

    def end_form(self):
        content = b"\n".join(self.ops)
        self.ops, (x0, y0, x1, y1) = self._forms.pop()
        a, b = self.user(x0, y0), self.user(x1, y1)
        k = "Fm%d" % len(self.doc.forms)
        self.doc.forms[k] = (content, (min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1])))
        self.op(b"/%s Do" % k.encode())
        self.clip, self.color, self.opacity = self._saved.pop()

    def path(self, pts, how=b"S", closed=False, rng=None, more=()):
        """pts in device space. rng: some of the parts are drawn as curves (with control points between their ends) and rectangles by the operator
        for them. more: further subpaths."""
        o, allpts = [], []
        for pts in [pts] + list(more):
            if rng and closed and len(pts) == 4 and pts[0][0] != pts[1][0] and pts[0][1] == pts[1][1] and pts[2] == (pts[1][0], pts[2][1]) and rng.random() < .4:
                a, b = self.user(*pts[0]), self.user(*pts[2])
                o.append(b"%s %s %s %s re" % tuple(num(v) for v in (a[0], a[1], b[0] - a[0], b[1] - a[1])))
                allpts += pts
                continue
            for i, q in enumerate(pts):
                k = rng.choice("lllcvy") if rng and i else "l"
                allpts.append(q)
                if k == "l":
                    o.append(b"%s %s" % (self.upt(*q), b"l" if i else b"m"))
                    continue
                c = [tuple(round(u + rng.choice([.25, .5, .75]) * (v - u), 2) for u, v in zip(pts[i - 1], q)) for _ in range(2 if k == "c" else 1)]
                allpts += c
                o.append(b" ".join(self.upt(*t) for t in c + [q]) + b" " + k.encode())
            if closed:
                o.append(b"h")
        self.op(b" ".join(o) + b" " + how)
        self.shapes.append((allpts, self.clip, how))

    def image(self, x0, y0, x1, y1, inline=False, mask=False, turn=0):
        """An image that fills the box (device space). turn: the corner of the box in which the image space has its origin. mask: True (a stencil
        mask) or "stencil", "soft", "color" (an image that is masked by another image or by a range of colors)."""
        if isinstance(mask, str):
            inline = False
        if inline:
            body = b"BI /W 1 /H 1 /CS /G /BPC 8 ID \x80 EI"
            if mask:
                body = b"BI /W 1 /H 1 /IM true /BPC 1 ID \x80 EI"
        else:
            nm = self.doc.imagekey(mask)
            self.xobjs[nm] = True
            body = b"/%s Do" % nm.encode()
        cor = [self.user(*c) for c in ((x0, y1), (x1, y1), (x1, y0), (x0, y0))]
        o, a, b = cor[turn], cor[(turn + 1) % 4], cor[(turn + 3) % 4]
        self.op(b"q %s %s %s %s %s %s cm %s Q" % (num(a[0] - o[0]), num(a[1] - o[1]), num(b[0] - o[0]), num(b[1] - o[1]), num(o[0]),
                                                 num(o[1]), body))
        self.images.append(((x0, y0, x1, y1), self.clip))

    def skewed_image(self, o, a, b):
        """An image that fills a parallelogram (device space): a corner and the vectors of the two sides from there."""
        nm = self.doc.imagekey(False)
        self.xobjs[nm] = True
        p = [self.user(*c) for c in (o, (o[0] + a[0], o[1] + a[1]), (o[0] + b[0], o[1] + b[1]))]
        self.op(b"q %s cm /%s Do Q" % (b" ".join(num(v) for v in (p[1][0] - p[0][0], p[1][1] - p[0][1], p[2][0] - p[0][0], p[2][1] - p[0][1], *p[0])), nm.encode()))
        xs, ys = [[o[i], o[i] + a[i], o[i] + b[i], o[i] + a[i] + b[i]] for i in (0, 1)]
        self.images.append(((min(xs), min(ys), max(xs), max(ys)), self.clip))


class Doc:
    def __init__(self):
        self.pages = []
        self.fonts = []
        self.images = {}
        self.forms = {}
        self.compress = False
        self._words = 0
        self.extra_catalog = b""
        self.pieces = 1

    def page(self, **k):
        p = Page(self, **k)
        self.pages.append(p)
        p.num = len(self.pages)
        return p

    def fontkey(self, font):
        for i, f in enumerate(self.fonts):
            if f is font:
                return "F%d" % i
        self.fonts.append(font)
        return "F%d" % (len(self.fonts) - 1)

    def imagekey(self, mask):
        k = "ImM" if mask is True else "Im%s" % (mask or "")
        self.images[k] = mask
        return k

    def glyphs(self):
        return [g for p in self.pages for g in p.glyphs]

    def build(self):
        w = Writer()
        pages_id = w.alloc()
        fonts = b" ".join(b"/F%d %d 0 R" % (i, f.write(w)) for i, f in enumerate(self.fonts))
        imgs = []
        for k, mask in self.images.items():
            sm = b"/Type /XObject /Subtype /Image /Width 1 /Height 1 /ImageMask true /BitsPerComponent 1"
            im = b"/Type /XObject /Subtype /Image /Width 1 /Height 1 /ColorSpace /DeviceGray /BitsPerComponent 8"
            if mask is True:
                n = w.stream(b"\x80", sm)
            else:
                if mask == "stencil":
                    im += b" /Mask %d 0 R" % w.stream(b"\x80", sm)
                elif mask == "soft":
                    im += b" /SMask %d 0 R" % w.stream(b"\x80", im)
                elif mask == "color":
                    im += b" /Mask [3 9]"
                n = w.stream(b"\x80", im)
            imgs.append(b"/%s %d 0 R" % (k.encode(), n))
        for k, (content, bb) in self.forms.items():
            imgs.append(b"/%s %d 0 R" % (k.encode(), w.stream(content, b"/Type /XObject /Subtype /Form /BBox [%s]" % b" ".join(
                num(x) for x in bb), compress=self.compress)))
        gs = {}
        for p in self.pages:
            gs.update(p.gstates)
        egs = b" ".join(b"/%s << %s >>" % (k.encode(), v) for k, v in gs.items())
        res = w.add(b"<< /Font << %s >> /XObject << %s >> /ExtGState << %s >> >>" % (fonts, b" ".join(imgs), egs))
        kids = []
        for p in self.pages:
            if p.broken:
                kids.append(b"%d 0 R" % w.add(p.broken if isinstance(p.broken, bytes) else b"42"))
                continue
            content = p.raw_contents if p.raw_contents is not None else b"\n".join(p.ops)
            if self.pieces > 1 and p.raw_contents is None:
                # Several streams, divided between operators.
                k = max(1, len(p.ops) // self.pieces)
                parts = [w.stream(b"\n".join(p.ops[i:i + k]), compress=self.compress) for i in range(0, max(1, len(p.ops)), k)]
                c = b"[%s]" % b" ".join(b"%d 0 R" % n for n in parts)
            else:
                c = b"%d 0 R" % w.stream(content, compress=self.compress)
            crop = b"/CropBox [%s]" % b" ".join(num(x) for x in p.cropbox) if p.cropbox else b""
            an = b""
            if p.annots:
                an = b"[%s]" % b" ".join(b"%d 0 R" % w.add(a) for a in p.annots)
                an = b"/Annots " + (b"%d 0 R" % w.add(an) if p.annots_indirect else an)
            kids.append(b"%d 0 R" % w.add(
                b"<< /Type /Page /Parent %d 0 R /MediaBox [%s %s %s %s] %s /Rotate %d /Resources %d 0 R /Contents %s %s >>" % (
                    pages_id, num(p.origin[0]), num(p.origin[1]), num(p.origin[0] + p.user_size()[0]), num(p.origin[1] + p.user_size()[1]),
                    crop, p.rotate, res, c, an)))
        w.objs[pages_id] = b"<< /Type /Pages /Kids [%s] /Count %d >>" % (b" ".join(kids), len(kids))
        root = w.add(b"<< /Type /Catalog /Pages %d 0 R %s >>" % (pages_id, self.extra_catalog))
        return w.output(root)
