"""Marks are merged with the characters that they belong to: no text is lost, duplicated or attached to the wrong character."""
import unicodedata
import chaos, ref, tables
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 500, "thorough": 9000}
RULE = "one mark that was drawn; distinct: by the mark, its base and their distance"
MUST_SEE = ["merged", "not merged", "before base", "after base", "two marks", "non-combining", "combining", "composed", "not composable", "rotated",
            "between overlapping characters", "first on page", "last on page", "disabled", "ligature base", "accented word", "turned word", "chain",
            "several code points"]
ASSUMPTIONS = ["the normal form C of Python's unicodedata is right"]
BASES = list("aeiouncsAEOUCzxq") + ["ı", "ﬁ", "ffi", "я", "é"]
MULTI = ["\u02bcn", "\u0301a", "\u0300\u0301", "a\u0301", "\u02b0\u02b0"]
ALL = sorted(chr(u) for u in tables.COMBINING) + [chr(u) for u in range(0x300, 0x315)] + ["\u02b0", "\u036f", "\u02ff", "\u0327", "\u0331"]


def words(ctx):
    """Accented words: each accented letter is drawn by a base character and its mark, in either order; the text must be as it was meant."""
    r = ctx.rng
    d = Doc()
    f = Font(b"CMR10", width=500)
    p = d.page()
    truth = []
    for k in range(5):
        x, y, fs, rot = 70 + 110 * k, 70 + 110 * k, r.choice([8, 10, 12]), r.choice([0, 0, 1, 2, 3])
        sx, sy = chaos.STEP[rot]
        word = ""
        ctx.seen("turned word", rot > 0)
        for _ in range(r.randint(2, 7)):
            b = r.choice("aeioucnsz")
            w = .5 * fs
            if r.random() < .5:
                m = r.choice([c for c in ALL if unicodedata.combining(chr(tables.COMBINING.get(ord(c), ord(c)))) and c not in "\"'_"])
                u = tables.COMBINING.get(ord(m), ord(m))
                dx = r.choice([0, .05, -.05, .1]) * w
                if r.random() < .5:
                    p.glyph(m, x + dx * sx, y + dx * sy, f, fs, rot)
                    p.glyph(b, x, y, f, fs, rot)
                    ctx.seen("before base")
                    # The mark must be nearer to this letter than to the one before.
                else:
                    p.glyph(b, x, y, f, fs, rot)
                    p.glyph(m, x + dx * sx, y + dx * sy, f, fs, rot)
                    ctx.seen("after base")
                word += unicodedata.normalize("NFC", b + chr(u))
            else:
                p.glyph(b, x, y, f, fs, rot)
                word += b
            x += w * sx
            y += w * sy
        truth.append(word)
    return d, truth


def random_marks(ctx):
    r = ctx.rng
    m = chaos.Maker(r, nfonts=2, kinds=["simple", "simple", "cid", "type3"])
    for p in m.doc.pages:
        m.p = p
        for _ in range(r.choice([3, 8, 15])):
            f, fs, rot, (x, y) = m.font(), chaos.size(r), m.rot(), m.where()
            dx, dy = chaos.STEP[rot]
            for _ in range(r.randint(1, 7)):
                t = r.choice(ALL) if r.random() < .5 else r.choice(BASES)
                if r.random() < .08:
                    t = r.choice(MULTI)  # A glyph that stands for several code points is no mark, even if it starts with one.
                    ctx.seen("several code points")
                hs = r.choice([1, 1, .6, .3])
                g = p.glyph(t, x, y, f, fs, rot, hscale=hs)
                a = g.w * r.choice([0, 0, 0, .1, .5, .5, .9, 1, 1, 1, 1.3, 3, -1])
                x, y = x + dx * a, y + dy * a + r.choice([0, 0, .1 * fs, -.6 * fs])
    return m.doc, None


def case(ctx):
    r = ctx.rng
    doc, truth = words(ctx) if ctx.idx % 3 == 0 else random_marks(ctx)
    off = ctx.idx % 10 == 7
    if off:
        truth = None
        ctx.seen("disabled")
    sts, _ = ctx.rec(doc, stages="parsing,diacritics,words", skip="diacritics" if off else None)
    before, after, wst = sts["parsing"], sts["diacritics"], sts["words"]
    for pb, pa in zip(before.pages, after.pages):
        cb, ca = before.get(pb["chars"]), after.get(pa["chars"])
        if not ctx.check([c.oid for c in cb] == [c.oid for c in ca], "characters", "the characters of page %d changed" % pb["num"]):
            return
        base_of, cps, box, last = ref.merge_marks(cb) if not off else ({}, {}, {c.oid: c for c in cb}, {})
        by = {c.oid: c for c in ca}
        for i, (b, a) in enumerate(zip(cb, ca)):
            want = base_of.get(b.oid)
            ctx.check(a.markOf == (want.oid if want else 0), "base", lambda: "page %d: the mark %s is merged with %s instead of %s; neighbours: %s" % (
                pb["num"], b, by.get(a.markOf), want, cb[max(0, i - 2):i + 3]))
            ctx.check((a.text, a.uni, a.fs, a.font, a.rank) == (b.text, b.uni, b.fs, b.font, b.rank), "changed", lambda: "%s became %s" % (b, a))
            if b.oid in cps and b.oid not in base_of:
                t = ref.compose(cps[b.oid])
                ctx.check(a.baseOf == last[b.oid].oid, "link", lambda: "%s refers to the mark %s instead of %s" % (a, by.get(a.baseOf), last[b.oid]))
                ctx.check(a.dtext == t, "text", lambda: "%s with the marks %s has the text %r instead of %r" % (
                    b, ["%04x" % u for u in cps[b.oid]], a.dtext, t))
                # Nothing is lost and nothing is duplicated.
                ctx.check(sorted(unicodedata.normalize("NFD", a.dtext)) == sorted(unicodedata.normalize("NFD", "".join(map(chr, cps[b.oid])))),
                          "lost", lambda: "%s has the text %r" % (b, a.dtext))
                ctx.seen("composed" if len(t) < len(cps[b.oid]) else "not composable")
                if len(cps[b.oid]) - len(b.uni) > 1:
                    ctx.seen("two marks")
                if len(b.uni) > 1:
                    ctx.seen("ligature base")
            elif b.oid not in cps:
                ctx.check(a.baseOf == 0, "link", lambda: "%s is the base of %s" % (a, by.get(a.baseOf)))
            ctx.check(ref.boxdiff(a.box(), (box[b.oid].x0, box[b.oid].y0, box[b.oid].x1, box[b.oid].y1)) < 1e-6, "box",
                      lambda: "the box of %s is %s instead of %s" % (b, a.box(), vars(box[b.oid])))
            u = ref.mark_of(b)
            if u is not None:
                ctx.seen("merged" if want else "not merged")
                ctx.seen("non-combining" if b.uni[0] in tables.COMBINING else "combining")
                if i == 0:
                    ctx.seen("first on page")
                if i == len(cb) - 1:
                    ctx.seen("last on page")
                if b.rot:
                    ctx.seen("rotated")
                if want and i and i + 1 < len(cb) and ref.xover(cb[i - 1], b) > 0 and ref.xover(cb[i + 1], b) > 0:
                    ctx.seen("between overlapping characters")
                if want and ref.mark_of(want) is not None:
                    ctx.seen("chain")
                ctx.ok((u, want.text if want else None, round(want.x0 - b.x0, 1) if want else None, b.rot))
    # Each character is in exactly one word, except for merged marks, which are represented by the text of their base.
    inword = [c for w in wst.words.values() for c in wst.get(w.chars)]
    for p in wst.pages:
        for c in wst.get(p["chars"]):
            n = sum(x is c for x in inword)
            ctx.check(n == (0 if c.markOf else 1), "words", lambda: "%s is part of %d words" % (c, n))
    for w in wst.words.values():
        cs = wst.get(w.chars)
        ctx.check(w.text == ref.word_text(cs), "word text", lambda: "word %r of the characters %s" % (w.text, cs))
    if truth is not None:
        got = [w.text for p in wst.pages for w in wst.get(p["words"])]
        ctx.seen("accented word", len(truth))
        ctx.sample("accented words %s" % truth[:3])
        ctx.check(got == truth, "accented words", lambda: "drawn %r, extracted %r" % (truth, got))
