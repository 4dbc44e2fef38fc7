"""Every glyph that is drawn is extracted with the text, position, direction, size, font and color with which it was drawn."""
import math
import chaos, tables
from pdfgen import Doc, Font, num

PROGRAMS = ["rec"]
N = {"quick": 640, "thorough": 6000}
RULE = "one glyph that was drawn; distinct: by text, position, direction, size and font"
MUST_SEE = ["long document", "rot0", "rot1", "rot2", "rot3", "rotated-page", "shifted-origin", "crop-box", "type3", "cid", "simple", "vertical-writing", "ligature", "named-glyph",
            "whitespace", "scaled-horizontally", "raised", "slanted", "in-figure", "colored", "transparent", "text-operators", "non-bmp", "multi-byte codes", "bold subset"]
ASSUMPTIONS = ["Poppler reports glyphs, their codes and the state of the graphics machine correctly",
               "the extents of a glyph across the direction of writing are 0.95 and 0.35 of its font size unless the font file says otherwise"]
TOL = .062
WS = set(" \t\n\r\v\f\u00a0")


def expected_text(g):
    if g.name in tables.NAMES and len(g.text) == 1:
        return chr(tables.NAMES[g.name]) if tables.NAMES[g.name] else ""
    return g.text


def compare(ctx, glyphs, st, key=lambda g: ""):
    """Compares the glyphs that were drawn with the characters of a stage."""
    chars = sorted(st.chars.values(), key=lambda c: c.rank)
    exp = [g for g in glyphs if not (expected_text(g) and all(c in WS for c in expected_text(g)))]
    for g in glyphs:
        if g.text in WS:
            ctx.seen("whitespace")
    if not ctx.check(len(chars) == len(exp), "count", lambda: "%d glyphs were drawn, %d characters were extracted; drawn: %s; extracted: %s" % (
            len(exp), len(chars), "".join(expected_text(g) for g in exp)[:300], "".join(c.text for c in chars)[:300])):
        return []
    ranks = [c.rank for c in chars]
    ctx.check(len(set(ranks)) == len(ranks), "rank", lambda: "two characters have the same rank: %s" % ranks)
    out = []
    for g, c in zip(exp, chars):
        d = "glyph %r drawn at (%g, %g) on page %d, size %g, direction %d, font %s" % (g.text, g.x, g.y, g.page.num, g.fs, g.rot, g.font.name)
        t = expected_text(g)
        ctx.check(c.text == t, "text", lambda: "%s: text %r instead of %r" % (d, c.text, t))
        ctx.check(c.uni == [ord(x) for x in t] or t == "", "codepoints", lambda: "%s: code points %s" % (d, c.uni))
        ctx.check(c.page == g.page.num, "page", lambda: "%s: page %g" % (d, c.page))
        ctx.check(c.doc == 1, "doc", lambda: "%s: the character does not refer to its document" % d)
        if g.font.kind not in ("cid", "cidv", "cidm"):
            if g.name:
                ctx.check(c.name == g.name, "name", lambda: "%s: glyph name %r instead of %r" % (d, c.name, g.name))
        ctx.check(c.rot == g.rot, "rotation", lambda: "%s: rotation %d" % (d, c.rot))
        ctx.check(c.wmode == (1 if g.vert else 0), "writing mode", lambda: "%s: writing mode %d" % (d, c.wmode))
        ctx.check(abs(c.fs - g.fs) <= TOL, "size", lambda: "%s: font size %g" % (d, c.fs))
        b = g.extra["box"] if isinstance(g.extra, dict) and "box" in g.extra else g.bbox()
        if g.extra != "slanted":
            ctx.check(max(abs(p - q) for p, q in zip(b, c.box())) <= TOL, "box", lambda: "%s: box %s instead of %s" % (d, c.box(), b))
            base = 0 if g.vert else (g.y if g.rot in (0, 2) else g.x)
            ctx.check(abs(c.base - base) <= TOL, "base", lambda: "%s: base %g instead of %g" % (d, c.base, base))
        ctx.check(c.x0 <= c.x1 and c.y0 <= c.y1, "box order", lambda: "%s: box %s" % (d, c.box()))
        fi = st.fonts.get(c.font)
        if ctx.check(fi is not None, "font", lambda: "%s: font %r is not known" % (d, c.font)):
            if g.font.kind == "type3":
                ctx.check(fi["type3"] == 1, "type3", lambda: "%s: the font is not a type-3 font" % d)
                ctx.check(all(abs(a - b) < 1e-9 for a, b in zip(fi["matrix"], g.font.fontmatrix)), "font matrix", lambda: "%s: font matrix %s" % (d, fi["matrix"]))
            else:
                ctx.check(c.font == g.font.name.decode(), "font name", lambda: "%s: font name %r" % (d, c.font))
                ctx.check(fi["type3"] == 0, "type3", lambda: "%s: the font is a type-3 font" % d)
            if g.font.fontfile is None and g.font.kind != "std":
                style(ctx, g.font, fi)
        ctx.check(max(abs(p - q) for p, q in zip(c.color, g.color)) <= .002, "color", lambda: "%s: color %s instead of %s" % (d, c.color, g.color))
        ctx.check(abs(c.opacity - g.opacity) <= .002, "opacity", lambda: "%s: opacity %g instead of %g" % (d, c.opacity, g.opacity))
        out.append((g, c))
        for tag, cond in (("rot%d" % g.rot, True), ("rotated-page", g.page.rotate), ("shifted-origin", g.page.origin != (0, 0)), ("crop-box", g.page.cropbox),
                          (g.font.kind, True), ("ligature", len(g.text) > 1), ("named-glyph", g.name in tables.NAMES),
                          ("in-figure", g.clip), ("colored", g.color != (0, 0, 0)), ("transparent", g.opacity != 1),
                          ("non-bmp", any(ord(x) > 0xffff for x in g.text)), ("slanted", g.extra == "slanted"), ("vertical-writing", g.vert),
                          ("scaled-horizontally", isinstance(g.extra, dict) and "hscale" in g.extra),
                          ("raised", isinstance(g.extra, dict) and "rise" in g.extra)):
            if cond:
                ctx.seen(tag)
    for g, c in out:
        ctx.ok((g.text, g.x, g.y, g.rot, g.fs, g.font.name))
    # A font that is used under different names must not be mixed up.
    fonts = {}
    for g, c in out:
        fonts.setdefault(id(g.font), set()).add(c.font)
    names = [n for v in fonts.values() for n in v]
    ctx.check(all(len(v) == 1 for v in fonts.values()), "font identity", lambda: "one font has several names: %s" % list(fonts.values()))
    ctx.check(len(set(names)) == len(names), "font identity", lambda: "several fonts have the same name: %s" % names)
    return out


def style(ctx, f, fi):
    """The style of a font follows from its name, its flags and its weight."""
    nm = fi["name"].lower()
    flags = 2 if f.kind == "type3" else f.flags
    norm = nm.split("+", 1)[-1]
    w = 700 if "bold" in nm or flags & (1 << 18) else (f.weight or 400) if f.kind == "simple" else 400
    for k, v in (("norm", norm), ("basename", "".join(c for c in norm.split("-")[0] if c not in "0123456789")), ("fixed", flags & 1), ("serif", flags & 2),
                 ("symbolic", flags & 4), ("italic", flags & 64 or "italic" in nm), ("weight", 800 if "black" in nm else w)):
        # For simple fonts, Poppler itself derives from the widths whether they are fixed.
        if k == "fixed" and f.kind in ("simple", "type3"):
            continue
        ctx.check(fi[k] == (bool(v) if k in ("fixed", "serif", "symbolic", "italic") else v), "style", lambda: "font %r (%s, flags %d, weight %s): %s is %r instead of %r" % (
            fi["name"], f.kind, flags, f.weight, k, fi[k], v))
    if nm != norm and w == 700:
        ctx.seen("bold subset")


def general(ctx):
    return chaos.document(ctx.rng)


def special(ctx):
    """Glyphs with all kinds of matrices and scales."""
    r = ctx.rng
    kinds = ["simple", "type3", "cid"]
    m = chaos.Maker(r, nfonts=3, npages=1, kinds=kinds)
    p = m.p
    for _ in range(30):
        f = m.font()
        x, y = m.where()
        fs = chaos.size(r)
        hs, rise = r.choice([1, .5, 2, 1.1]), r.choice([0, 0, 3, -2])
        g = m.glyph(m.char(0), x, y, f, fs, m.rot(), hscale=hs, rise=rise, split=r.choice([(1, 1), (2, 1), (.1, 1), (1, 2), (4, .5), (fs, 1), (1, fs)]),
                    extra={"hscale" if hs != 1 else "x": 1, "rise" if rise else "y": 1})
    return m.doc


def slanted(ctx):
    """Text at arbitrary angles: the direction is the nearest of the four directions."""
    r = ctx.rng
    m = chaos.Maker(r, nfonts=2, npages=1, kinds=["simple", "type3"], origin=False)
    p = m.p
    for _ in range(20):
        f, fs, (x, y) = m.font(), r.randint(5, 20), m.where()
        rot = r.randint(0, 3)
        a = r.choice([-40, -30, -12, -3, 0, 3, 20, 33, 42]) + r.random()
        t = m.char(0)
        g = p.glyph(t, x, y, f, fs, rot, extra="slanted")
        p.ops.pop()
        c, s = p.udir(rot)
        w = math.atan2(s, c) + math.radians(a)
        c, s = math.cos(w), math.sin(w)
        p.op(b"BT /%s %s Tf %s %s %s %s %s Tm <%s> Tj ET" % (m.doc.fontkey(f).encode(), num(fs), num(c), num(s), num(-s), num(c), p.upt(x, y),
                                                             f.enc(t).hex().encode()))
    return m.doc


def named(ctx):
    r = ctx.rng
    names = dict((chr(0x4e00 + i), n) for i, n in enumerate(r.sample(sorted(tables.NAMES), 12)))
    f = Font(b"CMEX10", kind=r.choice(["simple", "type3"]), names=names)
    lig = Font(b"CMR10", kind="simple", names={"ffi": "summationdisplay", "ﬁ": "f_i", "Q": "A", "W": "summation"})
    d = Doc()
    p = d.page()
    for i, t in enumerate(names):
        p.glyph(t, 50 + 30 * i, 100, f, 10)
    for i, t in enumerate(["ffi", "ﬁ", "Q", "W"]):
        p.glyph(t, 50 + 30 * i, 200, lig, 10)
    return d


def operators(ctx):
    """Text that is placed by the text operators: character and word spacing, leading, next line, kerning."""
    r = ctx.rng
    m = chaos.Maker(r, nfonts=2, npages=1, kinds=["simple", "type3"], turn=False, rots=False)
    p = m.p
    for _ in range(6):
        f, fs, (x, y) = m.font(), r.randint(5, 20), m.where()
        tc, tw, tl, tz = r.choice([0, 0, .5, -.3, 3]), r.choice([0, 5, 2]), r.randint(5, 30), r.choice([1, 1, .8])
        o = [b"BT /%s %s Tf %s Tc %s Tw %s TL %s Tz 1 0 0 1 %s Tm" % (m.doc.fontkey(f).encode(), num(fs), num(tc), num(tw), num(tl), num(tz * 100),
                                                                     p.upt(x, y))]
        lx, ly, cx = x, y, x

        def show(text):
            nonlocal cx
            for ch in text:
                w = f.width(ch) * f.unit() * fs
                p.glyphs.append(chaos_glyph(p, ch, cx, ly, w * tz, fs, f))
                cx += (w + tc + (tw if ch == " " else 0)) * tz
        for _ in range(r.randint(1, 6)):
            text = "".join(m.char(.1, 0) for _ in range(r.randint(1, 8))).replace("\t", " ").replace("\u00a0", " ")
            enc = b"<%s>" % b"".join(f.enc(c) for c in text).hex().encode()
            k = r.randint(0, 5)
            if k == 0:
                o.append(enc + b" Tj")
                show(text)
            elif k == 1:
                o.append(enc + b" '")
                ly += tl
                cx = lx
                show(text)
            elif k == 2:
                tw, tc = r.choice([0, 4]), r.choice([0, 1])
                o.append(b"%s %s %s \"" % (num(tw), num(tc), enc))
                ly += tl
                cx = lx
                show(text)
            elif k == 3:
                a, b = r.randint(-20, 50), r.randint(-30, 10)
                o.append(b"%d %d Td %s Tj" % (a, b, enc))
                lx, ly = lx + a, ly - b
                cx = lx
                show(text)
            elif k == 4:
                a, b = r.randint(-20, 50), r.randint(-30, -1)
                o.append(b"%d %d TD T* %s Tj" % (a, b, enc))
                tl = -b
                lx, ly = lx + a, ly - b + tl
                cx = lx
                show(text)
            else:
                ks = r.choice([-100, 250, 1000])
                o.append(b"[%s %d %s] TJ" % (enc, ks, enc))
                show(text)
                cx -= ks / 1000 * fs * tz
                show(text)
        o.append(b"0 Tc 0 Tw 100 Tz ET")
        p.op(b"\n".join(o))
    ctx.seen("text-operators")
    return m.doc


def chaos_glyph(p, ch, x, y, w, fs, f):
    from pdfgen import Glyph
    return Glyph(text=ch, page=p, x=x, y=y, w=w, fs=fs, rot=0, font=f, color=p.color, clip=p.clip, name=f.glyphname(ch), idx=len(p.glyphs),
                 opacity=p.opacity)


def vertical(ctx):
    """Vertical writing mode: the glyphs stand below each other."""
    r = ctx.rng
    d = Doc()
    p = d.page(w=r.choice([300, 612]), h=r.choice([300, 792]))
    f = Font(b"Mincho", kind="cidv", width=1000)
    for _ in range(5):
        x, y, fs = r.randint(50, 250), r.randint(50, 250), r.choice([10, 12, 7, 20])
        p.glyph(r.choice("縦書日本語") + "", x, y, f, fs, r.choice([0, 0, 1, 2, 3]))
        g = p.glyphs[-1]
        g.vert, g.rot = True, (g.rot + 1) % 4
        # The program represents such a glyph by a square of one font size next to its origin, which turns with the text.
        g.extra = {"box": {1: (x, y - fs, x + fs, y), 2: (x, y, x + fs, y + fs), 3: (x - fs, y, x, y + fs), 0: (x - fs, y - fs, x, y)}[g.rot]}
    return d


def long(ctx):
    """A document with many pages, of different sizes, with a few glyphs each."""
    r = ctx.rng
    d = Doc()
    f = Font(b"CMR10", width=500)
    for i in range(r.choice([66, 101, 130, 257, 300])):
        p = d.page(w=r.choice([200, 300]), h=r.choice([200, 300]), rotate=r.choice([0, 0, 0, 90]))
        for j, c in enumerate(str(i)):
            p.glyph(c, 50 + 6 * j, 50 + i % 100, f, 10)
    ctx.seen("long document")
    return d


def multibyte(ctx):
    """Fonts whose codes consist of one to three bytes and differ from the numbers of the glyphs; glyphs whose text contains blanks."""
    r = ctx.rng
    d = Doc()
    p = d.page(rotate=r.choice([0, 0, 90, 180, 270]))
    texts = ["a", "日", "ffi", "Ω", "x ", " \u0308", "\u00a0y", "本", "q", "é", "\U0001d4b3", "-", "Z", "語", "5", "e\u0301"]
    f = Font(b"Gothic", kind="cidm", width=1000, widths={t: r.randint(200, 1500) for t in texts if r.random() < .8})
    g = Font(b"Sans", kind="simple", widths={t: r.randint(200, 1500) for t in texts})
    for _ in range(30):
        t = r.choice(texts)
        if r.random() < .2:
            p.op(b"BT %d Tc ET" % r.choice([0, 3, -1]))
        p.glyph(t, r.randint(50, 500), r.randint(50, 500), f if r.random() < .8 else g, r.choice([10, 12, 7, 20]), r.choice([0, 0, 1, 2, 3]),
                hscale=r.choice([1, 1, .8]))
    ctx.seen("multi-byte codes")
    return d


def case(ctx):
    kind = ctx.idx % 12
    if ctx.idx % 36 == 7:
        kind = 12
    if ctx.idx % 90 == 43:
        kind = 13
    gen = {13: long, 12: multibyte, 7: special, 8: slanted, 9: named, 10: operators, 11: vertical}.get(kind, general)
    doc = gen(ctx)
    sts, status = ctx.rec(doc, stages="parsing")
    ctx.check(status == 0, "status", "the document could not be loaded: %s" % status)
    compare(ctx, doc.glyphs(), sts["parsing"])
    ctx.sample("%s: %d pages, %d glyphs" % (gen.__name__, len(doc.pages), len(doc.glyphs())))
