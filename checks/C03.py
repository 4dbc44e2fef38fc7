"""Conservation of text: each extracted character is in exactly one word, line and block of its page after each step, and the written text is
exactly the text that was drawn (outside of figures)."""
import collections, unicodedata
import chaos, layout, tables
from checks.C02 import expected_text, WS
from checks.C05 import formula
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 200, "thorough": 6000}
RULE = "one document that went through the whole pipeline with at least one character; distinct: by the multiset of its characters"
MUST_SEE = ["article", "chaos", "scripts", "dense", "stacked symbols", "marks", "hyphens", "figures", "several pages", "rotated text", "steps", "drawn text",
            "many segments", "many blocks", "one word on page", "overlapping text"]


def norm(s):
    out = []
    for c in unicodedata.normalize("NFD", s):
        if c in WS or c == "-":
            continue
        out.append(chr(tables.COMBINING.get(ord(c), ord(c))))
    return collections.Counter(unicodedata.normalize("NFD", "".join(out)))


def overlay(rng):
    """Text on top of other text."""
    d = Doc()
    p = d.page(w=300, h=300)
    f = Font(b"CMR10", width=500)
    for _ in range(rng.randint(3, 30)):
        t = rng.choice(layout.VOCAB) + rng.choice(["", "", "-", "."])
        p.text_run([list(t)], rng.choice([50, 50, rng.uniform(20, 200)]), rng.choice([100, 100, 103, rng.uniform(20, 280)]), f, rng.choice([10, 10, 7, 14]))
    return d


def case(ctx):
    r = ctx.rng
    k = ctx.idx % 7
    kind = ["article", "chaos", "scripts", "dense", "stacked symbols", "chaos", "overlapping text"][k]
    if k == 0:
        doc = layout.Article(r, rot=r.choice([0, 0, 0, 1, 2, 3]), pages=r.choice([1, 2]), size=(r.choice([420, 612]), r.choice([400, 560])), hyphens=.5).doc
    elif k == 1:
        doc = chaos.document(r)
    elif k == 2:
        doc = layout.scripted(r, r.choice([0, 0, 1, 2, 3]))
    elif k == 3:
        doc = layout.dense(r)
    elif k == 4:
        m = chaos.Maker(r, turn=False, origin=False)
        m.mathfont = Font(b"CMEX10", width=600, names={"Q": "summationdisplay", "R": "productdisplay", "S": "integraltext"})
        for p in m.doc.pages:
            m.p = p
            for _ in range(r.randint(1, 6)):
                formula(m)
        doc = m.doc
    elif k == 5:
        doc = chaos.document(r, clips=False)
    else:
        doc = overlay(r)
    ctx.seen(kind)
    if r.random() < .1:
        p = doc.page()
        p.text_run([list("word")], 50, 50, Font(b"CMR10", width=500), 10)
        ctx.seen("one word on page")
    out = ctx.path("out.txt")
    sts, status = ctx.rec(doc, outs=["txt:*:*:" + out], env={"PPP_STUB_SEED": str(ctx.idx)})
    if not ctx.check(status == 0, "status", "status %s" % status):
        return
    first = None
    for name, st in sts.items():
        if name not in ("parsing", "glyph-stats", "diacritics", "words", "word-stats", "segmentation", "lines", "scripts", "line-stats", "blocks",
                        "reading-order", "final"):
            continue
        ctx.seen("steps")
        chars = [(p["num"], o) for p in st.pages for o in p["chars"]]
        if first is None:
            first = chars
        ctx.check(chars == first, "characters changed", lambda: "after %s, the pages have other characters than after parsing" % name)
        if name in ("parsing", "glyph-stats", "diacritics"):
            continue
        c = collections.Counter((p["num"], o) for p in st.pages for w in st.get(p["words"]) for o in w.chars)
        exact(ctx, name, "words", c, [(n, o) for n, o in first if not st.chars[o].markOf], st)
        for n, o in first:
            b = st.chars[o].markOf
            while b and st.chars[b].markOf:
                b = st.chars[b].markOf
            if b:
                ctx.check((n, b) in c and st.chars[b].baseOf, "marks", lambda: "after %s, %s belongs to %s, which is not part of a word" % (name, st.chars[o], st.all[b]))
        words = [(p["num"], o) for p in st.pages for o in p["words"]]
        if name in ("words", "word-stats"):
            continue
        c = collections.Counter((p["num"], o) for p in st.pages for s in st.get(p["segments"]) for o in s.elements if o in st.words)
        exact(ctx, name, "parts of the pages", c, words, st)
        for kd in ("figures", "graphics", "shapes"):
            el = [(p["num"], o) for p in st.pages for o in p[kd]]
            c = collections.Counter((p["num"], o) for p in st.pages for s in st.get(p["segments"]) for o in s.elements if o in getattr(st, kd))
            exact(ctx, name, "parts of the pages (%s)" % kd, c, el, st)
        if name == "segmentation":
            continue
        c = collections.Counter((p["num"], o) for p in st.pages for s in st.get(p["segments"]) for l in st.get(s.lines) for o in l.words)
        exact(ctx, name, "text lines", c, words, st)
        lines = [(p["num"], o) for p in st.pages for s in st.get(p["segments"]) for o in s.lines]
        if name in ("lines", "scripts", "line-stats"):
            continue
        c = collections.Counter((p["num"], o) for p in st.pages for b in st.get(p["blocks"]) for o in b.lines)
        exact(ctx, name, "text blocks", c, lines, st)
    fin = sts["final"]
    for w in fin.words.values():
        ctx.seen("hyphens", bool(w.hyphFirst))
    ctx.seen("marks", any(c.markOf for c in fin.chars.values()))
    ctx.seen("figures", bool(fin.figures))
    ctx.seen("several pages", len(fin.pages) > 1)
    ctx.seen("rotated text", any(c.rot for c in fin.chars.values()))
    ctx.seen("many segments", len(fin.segments) > 4)
    ctx.seen("many blocks", len(fin.blocks) > 6)
    # The written text against the drawn text. (A form is a clip box of its own.)
    got = norm(ctx.output(out).decode("utf-8", "surrogateescape"))
    if k != 1:
        exp = norm("".join(expected_text(g) for p in doc.pages for g in p.glyphs if not g.clip))
        ctx.check(got == exp, "text of the output", lambda: "lost: %r, invented or duplicated: %r" % (dict(exp - got), dict(got - exp)))
        ctx.seen("drawn text")
    if first:
        ctx.ok(sorted(got.items()))
        ctx.sample("%s: %d characters, %d words, %d lines, %d blocks" % (kind, len(first), len(fin.words), len(fin.lines), len(fin.blocks)))


def exact(ctx, stage, what, counter, expected, st):
    e = collections.Counter(expected)
    ctx.check(counter == e, "conservation: %s" % what, lambda: "after %s, in the %s: missing %s, twice or too many %s" % (
        stage, what, [st.all[o] for _, o in list(e - counter)[:5]], [st.all[o] for _, o in list(counter - e)[:5]]))
