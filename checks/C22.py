"""Embedded Type 1 fonts: generated font programs are compared with what was read from them and with the boxes of the characters."""
import type1
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 1000, "thorough": 20000}
RULE = "one glyph of an embedded font program that is compared with the box from the reference interpreter; distinct: by the char string"
MUST_SEE = ["shifting matrix", "glyph", "form raw", "form pfb", "form hex", "lenIV 0", "lenIV 4", "procedure RD", "procedure -|", "flex", "subroutine", "hint replacement", "div", "sbw", "no subroutines",
            "no outline", "true box used", "nominal box used", "box: turned 0", "box: turned 1", "box: turned 2", "box: turned 3", "damaged", "skipped", "several fonts", "line ends \\r", "composed"]
ASSUMPTIONS = ["the boxes of glyphs include control points and the point of the left side bearing, as the program does; char strings divide only without remainder; the boxes of glyphs that are composed of other ones (seac) are not judged"]


def rnd(v, p=1):
    return round(v * 10) / 10


def case(ctx):
    r = ctx.rng
    d = Doc()
    names = ["A", "B", "a", "b", "g1", "parenleft", "summation", "uni20AC", "f_i", "x.alt"]
    texts = list("ABab12(+€x")
    fonts = []
    for i in range(r.choice([1, 1, 2])):
        pr = type1.Program(r, names)
        pr.no_matrix = r.random() < .2
        ctx.seen("no matrix", pr.no_matrix)
        ff = pr.write()
        damaged = None
        if r.random() < .15:
            damaged = True
            l1, l2, l3, data = ff
            k = r.randint(0, 5)
            if k == 0:
                data = data[:r.randint(0, len(data))]
            elif k == 1:
                data = bytes(b if r.random() > .02 else r.randint(0, 255) for b in data)
            elif k == 2:
                l1, l2 = r.choice([(0, l2), (l1, 0), (-5, l2), (l1 + 7, l2), (l1 - 3, l2), (10 ** 9, l2), (l1, 10 ** 9), (l1, -1), (l2, l1)])
            elif k == 3:
                i0 = r.randint(0, len(data) - 1)
                data = data[:i0] + data[i0 + r.randint(1, 50):]
            elif k == 4:
                l1 = l2 = l3 = None
            else:
                data = b""
            ff = (l1, l2, l3, data)
        fl = r.choice([4, 34, 34, 98, 34 + (1 << 18)])
        wt = r.choice([None, 300, 600])
        f = Font(r.choice([b"ABCDEF+Foo%d", b"Foo%d-BoldItalic", b"Foo%d", b"Foo%d-BLACK"]) % i, width=500, flags=fl, weight=wt, fontfile=ff, names=dict(zip(texts, names)))
        fonts.append((f, pr, damaged))
    page = d.page(w=600, h=600, rotate=r.choice([0, 0, 0, 90, 180, 270]))
    drawn = []
    for _ in range(r.randint(4, 14)):
        f, pr, dam = r.choice(fonts)
        k = r.randint(0, 9)
        fs, rot = r.choice([10, 8, 12.5, 20]), r.choice([0, 0, 1, 2, 3])
        g = page.glyph(texts[k], r.randint(60, 540), r.randint(60, 540), f, fs, rot, hscale=r.choice([1.0, 1.0, .8]), split=r.choice([(1, 1), (2, 1), (1, .5)]))
        drawn.append((g, names[k], f, pr, dam))
    # Fonts are only read if they are used.
    used = {id(f) for _, _, f, _, _ in drawn}
    skip = r.random() < .1
    st, status = ctx.rec(d, stages="parsing", skip="fonts" if skip else None)
    if not ctx.check(status == 0, "status", "status %s" % status):
        return
    st = st["parsing"]
    info = {}
    for f, pr, dam in fonts:
        if id(f) not in used:
            continue
        fi = st.fonts.get(f.name.decode())
        if not ctx.check(fi is not None, "font", lambda: "no font %r: %s" % (f.name, list(st.fonts))):
            return
        info[id(f)] = fi
        if dam:
            ctx.seen("damaged")
            continue
        nm = f.name.decode().lower()
        w = 700 if "bold" in nm or f.flags & (1 << 18) else f.weight or 400
        w = 800 if "black" in nm else w
        if not skip:
            w = {"Regular": 400, "Medium": 500, "Bold": 700}.get(pr.weight, w)
        ital = bool(f.flags & 64) or "italic" in nm or bool(pr.angle and not skip)
        ctx.check(fi["weight"] == w, "weight", lambda: "the weight of %s is %s; expected %s (program: %s)" % (f.name, fi["weight"], w, pr.weight))
        ctx.check(bool(fi["italic"]) == ital, "italic", lambda: "%s is%s italic (angle %s)" % (f.name, "" if fi["italic"] else " not", pr.angle))
        if skip:
            ctx.check(not fi["glyphs"], "skipped", lambda: "glyph boxes were read although the reading of fonts is switched off")
            ctx.seen("skipped")
            continue
        ctx.check(all(abs(a - b) < 1e-9 for a, b in zip(fi["matrix"], pr.matrix)), "font matrix", lambda: "%s; expected %s" % (fi["matrix"], pr.matrix))
        exp = {n: b for n, b in pr.boxes.items() if b}
        got = {n: tuple(b) for n, b in fi["glyphs"].items()}
        for n in sorted(set(exp) | set(got)):
            toks = pr.glyphs.get(n)
            if toks and "seac" in toks:
                ctx.seen("composed")
                continue
            ctx.check(exp.get(n) == got.get(n), "glyph box", lambda: "%s/%s of glyph %s (%s, lenIV %d, %s): box %s; expected %s; char string %s" % (
                pr.form, pr.eol.encode(), n, pr.rd, pr.lenIV, f.name, got.get(n), exp.get(n), toks))
            ctx.seen("glyph")
            ctx.ok((tuple(toks or ()), tuple(map(tuple, pr.subrs))))
            ctx.seen("flex", bool(toks) and 0 in toks and any(toks[j:j + 2] == [0, "callsubr"] for j in range(len(toks))))
            ctx.seen("hint replacement", bool(toks) and any(toks[j:j + 2] == [4, "callsubr"] for j in range(len(toks))))
            ctx.seen("subroutine", bool(toks) and any(isinstance(x, int) and x > 4 and y == "callsubr" for x, y in zip(toks, toks[1:])))
            ctx.seen("div", bool(toks) and "div" in toks)
            ctx.seen("sbw", bool(toks) and "sbw" in toks)
            ctx.seen("no outline", bool(toks) and len(toks) == 4)
        for t in ("form " + pr.form, "lenIV %d" % pr.lenIV, "procedure " + pr.rd, "line ends %r" % pr.eol):
            ctx.seen(t.replace("'", ""))
        ctx.seen("no subroutines", pr.no_subrs)
        ctx.sample("%s, %s, lenIV %d: %s" % (pr.form, pr.rd, pr.lenIV, exp))
    ctx.seen("several fonts", len(info) > 1)
    # The text is never affected; the boxes are the nominal ones, or the true ones where these are larger.
    got = sorted([c for c in st.chars.values()], key=lambda c: c.rank)
    order = [c for c in st.get(st.pages[0]["chars"])]
    ctx.check([c.text for c in order] == [g.text for g, *_ in drawn] or any(x for *_, x in drawn if x) and len(order) == len(drawn), "text",
              lambda: "characters %s; drawn: %s" % ([c.text for c in order], [g.text for g, *_ in drawn]))
    if len(order) != len(drawn):
        return
    for c, (g, n, f, pr, dam) in zip(order, drawn):
        ctx.check(c.text == g.text, "text", lambda: "%r; expected %r" % (c.text, g.text))
        if dam:
            continue
        nb = g.bbox()
        exp, base = nb, g.y if g.rot in (0, 2) else g.x
        b = None if skip else pr.boxes.get(n)
        if not skip and "seac" in pr.glyphs[n]:
            continue
        tag = "nominal box used"
        unsure = False
        if b:
            m = pr.matrix
            ctx.seen("shifting matrix", m[5] != 0)
            hs = g.w / (f.width(g.text) * .001 * g.fs)

            def dev(x, y):
                gx, gy = x * m[0] + y * m[2] + m[4], x * m[1] + y * m[3] + m[5]
                a, u = gx * g.fs * hs, gy * g.fs
                return {0: (g.x + a, g.y - u), 1: (g.x + u, g.y + a), 2: (g.x - a, g.y + u), 3: (g.x - u, g.y - a)}[g.rot]
            p, q = dev(b[0], b[1]), dev(b[2], b[3])
            tb = (min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1]))
            i = 0 if g.rot in (1, 3) else 1
            d1, d2 = nb[i] - tb[i] - .1, tb[i + 2] - nb[i + 2] - .1
            if max(d1, d2) > 0:
                exp = tb
                base = {0: tb[3], 1: tb[0], 2: tb[1], 3: tb[2]}[g.rot]
                tag = "true box used"
            unsure = min(abs(d1), abs(d2)) < 5e-3 if max(d1, d2) < 5e-3 else False
        if unsure:
            ctx.seen("near the threshold")
            continue
        ctx.seen(tag)
        ctx.seen("box: turned %d" % g.rot, tag == "true box used")
        bad = any(abs(u - v) > .0501 + 2e-3 for u, v in zip(c.box(), exp))
        ctx.check(not bad, "box: " + tag, lambda: "%s: %s has the box %s; expected %s (nominal %s, glyph %s, matrix %s)" % (n, c, c.box(), exp, nb, b, pr.matrix))
        ctx.check(abs(c.base - base) < .0501 + 2e-3, "base", lambda: "%s: base %s; expected %s" % (n, c.base, base))
