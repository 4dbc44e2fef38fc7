"""Dehyphenation: a word that is split by a hyphen at the end of a line is joined with its continuation, and no text is lost."""
import json
import layout, ref
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 160, "thorough": 4000}
RULE = "one pair of consecutive lines; distinct: by the last and the first word of the lines"
MUST_SEE = ["hyphenated", "not hyphenated", "across blocks", "across pages", "three parts", "lone hyphen", "switched off", "truth", "other dash", "continued by a capital letter", "directions differ"]


def words(ctx):
    """Lines with words that end with hyphens and the like."""
    r = ctx.rng
    d = Doc()
    f = Font(b"CMR10", width=500)
    for _ in range(r.choice([1, 1, 2, 3])):
        p = d.page(w=400, h=r.choice([200, 400]))
        v = 40
        while v < p.h - 40:
            n = r.choice([1, 1, 2, 4, 8])
            ws = [r.choice(layout.VOCAB) for _ in range(n)]
            for k in (0, -1):
                if r.random() < .6:
                    ws[k] = r.choice([ws[k] + "-", ws[k] + "-", ws[k][:2] + "-", "-", "--", ws[k] + "–", ws[k] + "-,", "a-", "x-y-", "\u00ad", "ü-"])
            if r.random() < .3:
                ws[0] = r.choice([ws[0].capitalize(), ws[0].upper(), r.choice(["2012", "3rd", "(see", "“of", "É" + ws[0], "ß", "-like", "."])])
            if r.random() < .1:
                # A line in another direction than its neighbours.
                rot = r.choice([1, 2, 3])
                p.text_run([list(w) for w in ws[:2]], {1: 20, 2: 350, 3: 380}[rot], {1: 30, 2: v, 3: p.h - 30}[rot], f, 10, rot)
            else:
                p.text_run([list(w) for w in ws], 50, v, f, 10)
            v += r.choice([12, 12, 12, 12, 12, 30, 50])
    return d


def case(ctx):
    r = ctx.rng
    k = ctx.idx % 4
    art = None
    if k == 0:
        art = layout.Article(r, ncols=1, hyphens=.5, size=(380, 500), pages=r.choice([1, 2]))
        doc = art.doc
    else:
        doc = words(ctx) if k < 3 else layout.anydoc(r)
    off = ctx.idx % 16 == 5
    out = ctx.path("o.txt")
    sts, _ = ctx.rec(doc, stages="reading-order,final", skip="dehyphenation" if off else None, outs=["txt:*:*:" + out])
    before, st = sts["reading-order"], sts["final"]
    lines = [(p["num"], b, l) for p in st.pages for b in st.get(p["blocks"]) for l in st.get(b.lines) if l.words]
    first, second, merged = {}, {}, []   # word -> number of its chain
    for (pa, ba, a), (pb, bb, b) in zip(lines, lines[1:]):
        x, y = st.all[a.words[-1]], st.all[b.words[0]]
        t = x.text.encode("utf-8", "surrogateescape")
        hy = t.endswith(b"-") and len(t) > 1 and not off
        if hy:
            ctx.seen("hyphenated")
            ctx.seen("continued by a capital letter", y.text[:1].isupper())
            ctx.seen("directions differ", a.rot != b.rot)
            if ba is not bb:
                ctx.seen("across blocks")
            if pa != pb:
                ctx.seen("across pages")
            if x.oid in second and x is not y:
                n = second[x.oid]
                ctx.seen("three parts")
                merged[n] = merged[n][:-1] + y.text
            else:
                n = len(merged)
                merged.append(x.text[:-1] + y.text)
            first[x.oid], second[y.oid] = n, n
        elif x.text == "-":
            ctx.seen("lone hyphen")
        elif x.text[-1:] in ("–", "\u00ad"):
            ctx.seen("other dash")
        else:
            ctx.seen("not hyphenated")
        ctx.ok((x.text, y.text))
    if off:
        ctx.seen("switched off")
    for w in st.words.values():
        if not w.chars:
            continue   # (a merged word)
        b = before.all[w.oid]
        ctx.check((w.text, w.chars, w.line, w.box()) == (b.text, b.chars, b.line, b.box()), "changed", lambda: "%s became %s" % (b, w))
        for name, got, want in (("first", w.hyphFirst, first), ("second", w.hyphSecond, second)):
            if w.oid in want:
                if ctx.check(got, name, lambda: "%s is not marked as the %s part of the hyphenated word %r" % (w, name, merged[want[w.oid]])):
                    t = st.all[got].text
                    ctx.check(t == merged[want[w.oid]], "merged text", lambda: "the word of the part %s is %r instead of %r" % (w, t, merged[want[w.oid]]))
            else:
                ctx.check(not got, name, lambda: "%s is marked as the %s part of the hyphenated word %s" % (w, name, st.all.get(got)))
    # The two parts of a word refer to the same merged word.
    for o, n in first.items():
        for q, m in second.items():
            if n == m:
                ctx.check(st.all[o].hyphFirst == st.all[q].hyphSecond, "same word", lambda: "%s and %s refer to different merged words" % (
                    st.all[o], st.all[q]))
    text = ctx.output(out).decode("utf-8", "surrogateescape")
    # What is written: each merged word once, in place of its first part.
    exp = []
    for p, b, l in lines:
        for w in st.get(l.words):
            if w.oid in second:
                continue
            exp.append(merged[first[w.oid]] if w.oid in first else w.text)
    ctx.check(text.split() == [t for w in exp for t in w.split()], "text", lambda: diff(exp, text.split()))
    if art and not off:
        truth = []
        carry = ""
        for q in art.paras:
            for l in q.lines:
                for i, w in enumerate(l):
                    w, carry = carry + w, ""
                    if w.endswith("-") and i == len(l) - 1:
                        carry = w[:-1]
                    else:
                        truth.append(w)
        ctx.seen("truth", len(truth))
        ctx.sample("article with %d words, %d of them hyphenated" % (len(truth), len(merged)))
        ctx.check(text.split() == truth, "truth", lambda: "written differs from drawn: " + diff(truth, text.split()))


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "%d words expected, %d found; first difference: %r / %r" % (len(a), len(b), a[max(0, i - 2):i + 4], b[max(0, i - 2):i + 4])
