"""Subscripts and superscripts: small characters below or above the base line of their text line, and no others."""
import layout, ref
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 140, "thorough": 4000}
RULE = "one small character in a text line; distinct: by text, size and offset from the base line"
MUST_SEE = ["subscript", "superscript", "small on base line", "shifted but not small", "base box without scripts", "truth", "switched off", "rotated", "slightly shifted", "script with mark"]


def slight(r):
    """Small characters that are hardly raised or lowered, in lines in all directions; some of them have marks."""
    d = Doc()
    f = Font(b"CMR10", width=500)
    rot = r.randint(0, 3)
    dx, dy = {0: (1, 0), 1: (0, 1), 2: (-1, 0), 3: (0, -1)}[rot]
    for _ in range(r.choice([1, 2])):
        p = d.page(w=500, h=500)
        for li in range(r.randint(2, 8)):
            u, v = 50, 50 + 40 * li
            # The position of (u, v) in a page that is turned.
            x, y = {0: (u, v), 1: (500 - v, u), 2: (500 - u, 500 - v), 3: (v, 500 - u)}[rot]
            for _ in range(r.randint(2, 8)):
                for c in r.choice(layout.VOCAB):
                    up, fs = 0, 10
                    if r.random() < .2:
                        up, fs = r.choice([0, .06, .13, .15, .18, .25, .5, 2, -.06, -.13, -.15, -.18, -.25, -.5, -2]), r.choice([6, 7, 8, 9.05, 9.2, 9])
                    gx, gy = x + up * dy, y - up * dx
                    w = p.glyph(c, gx, gy, f, fs, rot).w
                    if r.random() < .1:
                        p.glyph(r.choice(["\u0301", "\u00b4", "\u0308"]), gx, gy, f, fs, rot)
                    x, y = x + w * dx, y + w * dy
                x, y = x + 3 * dx, y + 3 * dy
    return d


def case(ctx):
    r = ctx.rng
    truth = ctx.idx % 2 == 0
    doc = layout.scripted(r, ctx.idx // 2 % 4) if truth else slight(r) if ctx.idx % 4 == 1 else layout.anydoc(r)
    off = ctx.idx % 14 == 5
    sts, _ = ctx.rec(doc, stages="lines,scripts", skip="scripts" if off else None)
    before, st = sts["lines"], sts["scripts"]
    mf = st.stats["mostFreqFontSize"]
    if off:
        ctx.seen("switched off")
        for c in st.chars.values():
            ctx.check(not c.sub and not c.sup, "switched off", lambda: "%s is a script although the detection is switched off" % c)
        return
    inline = set()
    for p in st.pages:
        for s in st.get(p["segments"]):
            for l in st.get(s.lines):
                bl = before.all[l.oid]
                box = list(bl.bbb)
                scripts = False
                ctx.check(abs(l.base - bl.base) < 1e-9 and l.box() == bl.box() and l.words == bl.words, "changed", lambda: "%s became %s" % (bl, l))
                for w in st.get(l.words):
                    for c in st.get(w.chars):
                        inline.add(c.oid)
                        small = ref.lt(c.fs, mf, .9)
                        # How much the character is raised; "up" depends on the direction of writing.
                        up = (l.base - c.base) * (1 if l.rot in (0, 3) else -1)
                        sup, sub = small and up > .1, small and up < -.1
                        if small and abs(abs(up) - .1) < 1e-6:
                            sup, sub = c.sup, c.sub
                        ctx.seen("slightly shifted", small and .1 < abs(up) < .2)
                        ctx.seen("script with mark", bool((sup or sub) and (c.markOf or c.baseOf)))
                        if l.rot and small:
                            ctx.seen("rotated")
                        ctx.check((c.sup, c.sub) == (int(sup), int(sub)), "script", lambda: "%s (size %g, base %g) in the line %s (base %g, most "
                                  "frequent size %g): superscript %d, subscript %d" % (c, c.fs, c.base, l, l.base, mf, c.sup, c.sub))
                        if small:
                            ctx.ok((c.text, c.fs, round(c.base - l.base, 1)))
                            ctx.seen("superscript" if sup else "subscript" if sub else "small on base line")
                        elif abs(c.base - l.base) > .1:
                            ctx.seen("shifted but not small")
                        if not sub and not sup:
                            box = [min(box[0], c.x0), min(box[1], c.y0), max(box[2], c.x1), max(box[3], c.y1)]
                        else:
                            scripts = True
                ctx.check(ref.boxdiff(box, l.bbb) < 1e-6, "base box", lambda: "%s: the box without scripts is %s instead of %s" % (l, l.bbb, box))
                if scripts:
                    ctx.seen("base box without scripts")
    for c in st.chars.values():
        if c.oid not in inline:
            ctx.check(not c.sub and not c.sup, "script", lambda: "%s is a script but not part of a line" % c)
    if truth:
        gl, cs = doc.glyphs(), sorted(st.chars.values(), key=lambda c: c.rank)
        if ctx.check(len(gl) == len(cs), "characters", "some characters are missing"):
            for g, c in zip(gl, cs):
                got = "sub" if c.sub else "sup" if c.sup else "base"
                ctx.seen("truth")
                ctx.check(got == g.extra, "truth", lambda: "%s was drawn as %s but is %s (direction %d, base %g; glyph at %g, %g of size %g)" % (
                    c, g.extra, got, g.rot, c.base, g.x, g.y, g.fs))
    ctx.sample("%d lines, most frequent font size %g" % (len(st.lines), mf))
