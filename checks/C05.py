"""Words: the characters that follow each other without a gap make up a word; gaps, jumps and changes of the direction separate words."""
import chaos, layout, ref, tables
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 260, "thorough": 7000}
RULE = "one word that was extracted; distinct: by text, direction and box"
MUST_SEE = ["rot0", "rot1", "rot2", "rot3", "split by gap", "split by jump back", "split by shift across", "split by rotation", "split by writing mode",
            "joined over small gap", "mixed sizes", "mixed fonts", "with mark", "article words", "stacked", "stack base by word", "stack base by name",
            "stack ends: size", "stack ends: overlap", "stack ends: another stack",
            "stack of many parts", "stack base later in its word", "single character", "rotated-page"]


def formula(m):
    """A stacked symbol with words of various sizes before and behind it (in the order of extraction), above and below it."""
    r = m.rng
    names = {"Q": "summationdisplay", "R": "productdisplay", "S": "integraltext"}
    f = m.mathfont
    x, y = m.where(80)
    fs = r.choice([10, 12, 14])
    rot = r.choice([0, 0, 0, 0, 1, 2])
    base = r.choice(["∑", "∏", "∫", "⊗", "lim", "sup", "Q", "R", "S", "max", "∪"])
    if r.random() < .2:
        base = r.choice(["2", "ab", "−"]) + base  # The symbol is not the first character of its word.
    k = r.choice([0, 1, 2, 2, 5])
    small = r.choice([.6, .7, .7, .95, 1])

    def limit(above):
        t = r.choice(["n", "i=1", "k", "x∈A", "N-1"])
        off = r.choice([0, 0, 0, .3, .5, 1.5]) * fs
        run(t, x + off, y + (-1.2 if above else 1.3) * fs * r.choice([1, 1, 1.6]), fs * small)

    def run(t, x, y, s):
        for c in t:
            g = m.p.glyph(c, x, y, f, s, rot)
            x += g.w
    if r.random() < .5:
        run("abc", x - 6 * fs, y, fs)
    if r.random() < .25:  # A small symbol with a limit of its own directly before.
        run("n", x, y + 1.5 * fs, fs * .4)
        run(r.choice(["∑", "∫", "lim"]), x, y - r.choice([1.2, 2]) * fs, fs * .6)
        k = 0
    for _ in range(k):
        limit(r.random() < .5)
    run(base, x, y, fs)
    for _ in range(r.choice([0, 1, 2, 2, 6])):
        limit(r.random() < .5)
    if r.random() < .3:
        run(r.choice(["∑", "∫", "lim"]), x + r.choice([0, .2, 2]) * fs, y + r.choice([-2, 2, 0]) * fs, r.choice([fs, .7 * fs]))
    if r.random() < .5:
        run("xyz", x + 4 * fs, y, fs)
    m.names = names


def gen(ctx):
    r = ctx.rng
    k = ctx.idx % 4
    if ctx.idx % 8 == 3:
        a = layout.Article(r, rot=r.randint(0, 3), page_rotate=r.choice([0, 0, 90, 180, 270]), pages=1, size=(420, 500))
        return a.doc, a
    if k >= 2:
        m = chaos.Maker(r, nfonts=1, kinds=["simple"])
        m.mathfont = Font(b"CMEX10", width=600, names={"Q": "summationdisplay", "R": "productdisplay", "S": "integraltext"})
        for p in m.doc.pages:
            m.p = p
            for _ in range(r.randint(1, 6)):
                formula(m)
        return m.doc, None
    m = chaos.Maker(r, nfonts=3, kinds=["simple", "simple", "simple", "cid", "type3", "cidv"])
    for p in m.doc.pages:
        m.p = p
        for _ in range(r.choice([2, 6, 12])):
            f, fs, rot, (x, y) = m.font(), chaos.size(r), m.rot(), m.where()
            dx, dy = chaos.STEP[rot]
            for _ in range(r.randint(2, 16)):
                if r.random() < .1:
                    f = m.font()
                if r.random() < .1:
                    fs = r.choice([fs * .7, fs + .5, fs * 1.5])
                if r.random() < .04:
                    rot = m.rot()
                    dx, dy = chaos.STEP[rot]
                t = "\u0301" if r.random() < .05 else m.char()
                g = m.glyph(t, x, y, f, fs, rot)
                if t == "\u0301" and r.random() < .5:
                    fs = r.choice([fs * .7, fs + .5, fs * 1.5])
                adv = g.w + fs * r.choice([0] * 10 + [.05, .1, .13, .17, .25, .5, -.1, -.3, -3, 5])
                cr = fs * r.choice([0] * 12 + [.2, -.3, .6, -.7, 1.5])
                x, y = x + dx * adv - dy * cr, y + dy * adv + dx * cr
    return m.doc, None


def why(a, c):
    if a.rot != c.rot:
        return "split by rotation"
    if a.wmode != c.wmode:
        return "split by writing mode"
    v = c.rot in (1, 3)
    if ref.lt(ref.xover(c, a) if v else ref.yover(c, a), .5):
        return "split by shift across"
    return "split by gap"


def case(ctx):
    doc, art = gen(ctx)
    sts, _ = ctx.rec(doc, stages="diacritics,words")
    before, st = sts["diacritics"], sts["words"]
    for pb, p in zip(before.pages, st.pages):
        exp = ref.split_words(before.get(pb["chars"]))
        words = st.get(p["words"])
        e = [[c.oid for c in w] for w in exp]
        g = [list(w.chars) for w in words]
        if e != g:
            i = next((i for i, (a, b) in enumerate(zip(e, g)) if a != b), min(len(e), len(g)))
            ctx.fail("words", "page %d: word %d consists of %s instead of %s (words before: %s)" % (
                p["num"], i, [before.all[o] for o in (g[i] if i < len(g) else [])], exp[i] if i < len(exp) else [], [w.text for w in words[max(0, i - 3):i]]))
            continue
        for i, (w, cs) in enumerate(zip(words, exp)):
            cs2 = st.get(w.chars)
            d = "the word %s of the characters %s" % (w, cs)
            ctx.check(w.text == ref.word_text(cs2), "text", lambda: "%s has the text %r" % (d, w.text))
            ctx.check(ref.boxdiff(w.box(), ref.union(cs)) < 1e-6, "box", lambda: "%s has the box %s instead of %s" % (d, w.box(), ref.union(cs)))
            ctx.check(w.page == p["num"] and w.rot == cs[0].rot and w.wmode == cs[0].wmode and w.doc == 1, "position", lambda: "%s: page %s, rotation %s" % (
                d, w.page, w.rot))
            ctx.check(ref.is_mode(w.fs, [c.fs for c in cs]), "size", lambda: "%s has the font size %g" % (d, w.fs))
            ctx.check(ref.is_mode(w.font, [c.font for c in cs]), "font", lambda: "%s has the font %s" % (d, w.font))
            ctx.check(all(c.word == w.oid for c in cs2), "link", lambda: "%s: the characters refer to the words %s" % (d, [c.word for c in cs2]))
            ctx.check(w.rank == i, "rank", lambda: "%s has the rank %d instead of %d" % (d, w.rank, i))
            ctx.seen("rot%d" % w.rot)
            if len(cs) == 1:
                ctx.seen("single character")
            if len({c.fs for c in cs}) > 1:
                ctx.seen("mixed sizes")
            if len({c.font for c in cs}) > 1:
                ctx.seen("mixed fonts")
            if any(c.baseOf for c in cs2):
                ctx.seen("with mark")
            for a, b in zip(cs, cs[1:]):
                v = a.rot in (1, 3)
                if (ref.vgap if v else ref.hgap)(a, b) > .02 * a.fs:
                    ctx.seen("joined over small gap")
            if i:
                q = exp[i - 1]
                t = why(q[-1], cs[0])
                if t == "split by gap" and cs[0].rot == 0 and cs[0].x1 < q[0].x0:
                    t = "split by jump back"
                ctx.seen(t)
            ctx.ok((w.text, w.rot, w.box()))
        part = ref.stacked(words, st)
        for w in words:
            b = part.get(w.oid)
            ctx.check(w.partOf == (b.oid if b else 0), "stacked", lambda: "page %d: %s is part of the stacked symbol %s instead of %s; words: %s" % (
                p["num"], w, st.all.get(w.partOf), b, words))
            mine = {o for o, x in part.items() if x is w}
            ctx.check(set(w.stackBaseOf) == mine and len(w.stackBaseOf) == len(mine), "stacked", lambda: "page %d: %s is the base of %s instead of %s" % (
                p["num"], w, [st.all[o] for o in w.stackBaseOf], [st.all[o] for o in mine]))
        for i, w in enumerate(words):
            if ref.is_stack_base(w, st) and w.oid not in part:
                if w.stackBaseOf:
                    ctx.seen("stacked", len(w.stackBaseOf))
                    cs = st.get(w.chars)
                    ctx.seen("stack of many parts", len(w.stackBaseOf) > 4)
                    ctx.seen("stack base later in its word", w.text not in ref.STACK_WORDS and not (
                        cs[0].text in ref.STACK_TEXTS or cs[0].name in ref.STACK_NAMES))
                    ctx.seen("stack base by word" if w.text in ref.STACK_WORDS else "stack base by name" if any(
                        c.name in ref.STACK_NAMES for c in st.get(w.chars)) else "stack base by text")
                for o in words[max(0, i - 1):i] + words[i + 1:i + 2]:
                    if o.oid not in part:
                        if o.stackBaseOf and ref.xover(w, o) >= .5 and ref.lt(o.fs, w.fs, 1.0):
                            ctx.seen("stack ends: another stack")
                        ctx.seen("stack ends: size" if ref.xover(w, o) >= .5 else "stack ends: overlap")
    if any(p.rotate for p in doc.pages):
        ctx.seen("rotated-page")
    if art:
        truth = [w for q in art.paras for w in q.words()]
        got = [w.text for p in st.pages for w in st.get(p["words"])]
        ctx.seen("article words", len(truth))
        i = next((i for i, (a, b) in enumerate(zip(truth, got)) if a != b), 0)
        ctx.check(truth == got, "article words", lambda: "%d words drawn, %d extracted; first difference: %r, %r" % (
            len(truth), len(got), truth[i:i + 4], got[i:i + 4]))
        ctx.sample("article, direction %d: %s" % (art.rot, " ".join(truth[:8])))
