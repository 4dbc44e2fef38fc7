"""The visualization: exactly the requested annotations are added, at the positions of the elements, and nothing else changes."""
import collections, os
import layout, pdfread, serial
from chaos import document as chaosdoc

PROGRAMS = ["rec", "cli"]
N = {"quick": 120, "thorough": 2500}
RULE = "one visualization of a generated document with a subset of the kinds of elements; distinct: by the subset and the document"
MUST_SEE = ["characters", "words", "figures", "shapes", "graphics", "text-lines", "text-blocks", "segments", "reading-order", "segment-cuts", "reading-order-cuts",
            "no kind", "all kinds", "rotated page", "page with an origin", "rotated page with an origin", "page without object", "existing annotation", "chosen cut", "cut not chosen",
            "small box", "block connected", "options without a path", "in place of an existing file"]
ASSUMPTIONS = ["the written file is read by a reader of the harness that understands the files that Poppler writes (incremental updates with a cross-reference table)"]
KINDS = ["characters", "words", "figures", "shapes", "graphics", "text-lines", "text-blocks", "segments", "reading-order", "segment-cuts", "reading-order-cuts"]
NOTE = [b"<< /Type /Annot /Subtype /Square /Rect [10 10 40 30] /C [0 1 0] >>", b"<< /Type /Annot /Subtype /Text /Rect [50 50 60 60] /Contents (a note) >>",
        b"<< /Type /Annot /Subtype /Link /Rect [1 2 30 40] /Border [0 0 0] /A << /S /URI /URI (http://x.org) >> >>"]
TOL = .011


def expected(st, pages, kinds):
    """What must be drawn: per page a list of (subtype, contents, numbers)."""
    exp = [[] for _ in pages]
    tags = collections.Counter()

    def square(e, page=None):
        i = int(page or e.page) - 1
        x0, y0, x1, y1 = e.box()
        tags["small box"] += x1 - x0 < 1 or y1 - y0 < 1
        x1 += x1 - x0 < 1 - 1e-9
        y0, y1 = (y0 - 1, y1) if y1 - y0 < 1 - 1e-9 else (y0, y1)
        a, b = pages[i].user(x0, y0), pages[i].user(x1, y1)
        exp[i].append((b"Square", None, (min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1]))))

    def free(i, text, x, y, rect=None):
        exp[i].append((b"FreeText", text, rect or (x, y)))

    def role(b):
        i = int(b.page) - 1
        free(i, serial.ROLES[b.role], *pages[i].user(b.x0, b.y0))

    def mid(b):
        i = int(b.page) - 1
        return pages[i].user((b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2)

    for p in st.pages:
        i = p["num"] - 1
        for k in ("characters", "words", "figures", "shapes", "graphics"):
            if k in kinds:
                for e in st.get(p["chars" if k == "characters" else k]):
                    square(e)
        segs = st.get(p["segments"])
        if "text-lines" in kinds:
            for s in segs:
                for e in st.get(s.lines):
                    square(e)
        if "segments" in kinds:
            for s in segs:
                square(s)
                for e in st.get(s.blocks):
                    square(e, s.page)
        blocks = st.get(p["blocks"])
        for k in ("text-blocks", "reading-order"):
            if k in kinds:
                for b in blocks:
                    square(b)
                    role(b)
        if "reading-order" in kinds and len(blocks) > 1:
            tags["block connected"] += 1
            for n, b in enumerate(blocks):
                m = mid(b)
                exp[i].append((b"Circle", None, (m[0] - 5, m[1] - 5, m[0] + 5, m[1] + 5)))
                free(i, str(n + 1), m[0] - 5, m[1] - 5)
                if n:
                    exp[i].append((b"Line", None, mid(blocks[n - 1]) + m))
        for k, f in (("segment-cuts", "bcuts"), ("reading-order-cuts", "rcuts")):
            if k in kinds:
                n = 0
                for c in p[f]:
                    a, b = pages[i].user(c["p"][0], c["p"][1]), pages[i].user(c["p"][2], c["p"][3])
                    exp[i].append((b"Line", None, a + b))
                    tags["chosen cut" if c["chosen"] else "cut not chosen"] += 1
                    if c["chosen"]:
                        n += 1
                        exp[i].append((b"Square", None, (a[0] - 5, a[1] - 5, a[0] + 5, a[1] + 5)))
                        free(i, str(n), a[0] - 5, a[1] - 5)
                    free(i, ("id", c["id"]), *b)
    return exp, tags


def compare(ctx, what, page, exp, got, ids):
    """exp against the annotations of the page; ids: whether the ids of the cuts are known."""
    rest = []
    for a in got:
        sub = bytes(a.get(b"Subtype", b""))
        text = a.get(b"Contents")
        if text is not None and text.startswith(b"\xfe\xff"):
            text = text[2:].decode("utf-16-be")
        v = tuple(a[b"L"] if sub == b"Line" else a[b"Rect"])
        if sub != b"FreeText":
            # A box or a line without a color is not drawn.
            c = a.get(b"C")
            ctx.check(isinstance(c, list) and len(c) in (1, 3, 4) and all(0 <= x <= 1 for x in c), "invisible", lambda: "%s: page %d: the annotation %s %s has the color %s" % (what, page, sub, v, c))
        rest.append((sub, text, v))
    by = collections.defaultdict(list)
    for g in rest:
        by[g[0]].append(g)
    for sub, text, v in exp:
        best = None
        for j, g in enumerate(by[sub]):
            if isinstance(text, tuple):
                # An id at the end of a cut: the box lies there.
                if g[1] is None or (g[1] != text[1] if ids else len(g[1]) != len(text[1])):
                    continue
                x, y = v
                if not (g[2][0] - TOL <= x <= g[2][2] + TOL and g[2][1] - TOL <= y <= g[2][3] + TOL):
                    continue
            else:
                if (text or None) != (g[1] or None) or any(abs(p - q) > TOL for p, q in zip(v, g[2])):
                    continue
            best = j
            break
        if best is None:
            ctx.fail("missing: %s" % sub.decode(), "%s: page %d: no %s annotation %s at %s; there are %s" % (
                what, page, sub.decode(), "" if text is None else repr(text), v, by[sub][:6]))
            return
        by[sub].pop(best)
    left = [g for l in by.values() for g in l]
    ctx.check(not left, "additional", lambda: "%s: page %d: annotations that were not asked for: %s" % (what, page, left[:5]))


def existing(ctx, what, page, before, after):
    """The annotations that the page had are still there. Returns the new ones."""
    ctx.check(len(after) >= len(before), "existing annotations", lambda: "%s: page %d: %d annotations instead of at least %d" % (what, page, len(after), len(before)))
    for a, b in zip(before, after):
        same = isinstance(b, dict) and all(b.get(k) == v for k, v in a.items())
        ctx.check(same, "existing annotations", lambda: "%s: page %d: the annotation %s became %s" % (what, page, a, b))
    return after[len(before):]


def signature(st, p):
    return [(c.text, c.name, c.box(), c.rot, c.fs, c.font, tuple(c.color)) for c in st.get(p["chars"])]


def case(ctx):
    r = ctx.rng
    doc = layout.anydoc(r) if r.random() < .6 else chaosdoc(r)
    if r.random() < .1:
        doc.page().broken = True
        r.shuffle(doc.pages)
    for p in doc.pages:
        if r.random() < .5 and not p.broken:
            p.annots = [r.choice(NOTE) for _ in range(r.randint(1, 3))]
            p.annots_indirect = r.random() < .5
            ctx.seen("existing annotation")
    env = {"PPP_STUB_MODEL": r.choice(["hash", "seq"]), "PPP_STUB_SEED": str(ctx.idx)}
    data = doc.build()
    # Poppler skips what is no page; the last pages are missing then.
    doc.pages.sort(key=lambda p: bool(p.broken))
    tool = r.random() < .75
    density = r.choice([0, .15, .5, .9])
    kinds = set(k for k in KINDS if r.random() < density) if tool and r.random() < .9 else set(KINDS)
    vis = ctx.path("out.vis.pdf")
    stages, status = ctx.rec(data, stages="parsing,final", env=env, **({} if tool else {"vis": vis}))
    if status:
        return
    st = stages["final"]
    pdf = ctx.path("in.pdf")
    what = "all kinds (recorder)"
    if tool:
        args = ["--visualize-" + k for k in KINDS if k in kinds]
        r.shuffle(args)
        what = " ".join(args) or "no kind"
        if r.random() < .2:
            open(vis, "wb").write(b"%PDF-1.4 old " * r.choice([1, 20000]))
            ctx.seen("in place of an existing file")
        fmt = r.choice(["txt", "txt-extended", "jsonl"])
        base = [ctx.bins["cli"], "--format", fmt, pdf]
        rc, out, err = ctx.run(base[:1] + args + base[1:] + ["--visualization-path", vis], env=env)
        if not ctx.check(rc == 0, "status", lambda: "%s: ended with %s: %s" % (what, rc, err[-1500:].decode("utf-8", "replace"))):
            return
        if fmt == "jsonl":
            serial.compare(ctx, serial.parse(out, ctx), serial.records(st, serial.ROLES, serial.TYPES), what, ignore=("id", "word", "block"))
        else:
            e = serial.plain(st, serial.ROLES, fmt == "txt-extended")
            ctx.check(out == e, "output with visualization", lambda: "%s: wrote %r instead of %r" % (what, out[:300], e[:300]))
        if r.random() < .3:
            # Without a path, no visualization is written.
            d = ctx.path("alone")
            os.makedirs(d)
            rc, out2, err = ctx.run(base[:1] + args + base[1:], env=env, cwd=d)
            ctx.check(rc == 0 and (fmt == "jsonl" or out2 == out) and os.listdir(d) == [], "without a path", lambda: "%s without a path: status %s, files %s" % (what, rc, os.listdir(d)))
            ctx.seen("options without a path", bool(args))
    ctx.check(open(pdf, "rb").read() == data, "input changed", "the input file was changed")
    if not ctx.check(os.path.exists(vis), "no file", lambda: "%s: no file was written" % what):
        return
    new = open(vis, "rb").read()
    try:
        f0, f1 = pdfread.File(data), pdfread.File(new)
        pages0, pages1 = [sorted(f.pages(), key=lambda p: p is None) for f in (f0, f1)]
        notes = [([], []) if not isinstance(p, dict) or not isinstance(q, dict) else (f0.annots(p), f1.annots(q)) for p, q in zip(pages0, pages1)]
    except (ValueError, KeyError, TypeError, IndexError) as e:
        ctx.fail("damaged file", "%s: the written file cannot be read: %r" % (what, e))
        return
    ctx.check(len(pages0) == len(pages1), "pages", lambda: "%s: %d pages instead of %d" % (what, len(pages1), len(pages0)))
    exp, tags = expected(st, doc.pages, kinds)
    total = 0
    for i, (a, b) in enumerate(notes):
        if doc.pages[i].broken:
            ctx.check(not exp[i] and not b, "broken page", lambda: "%s: page %d is broken and has annotations" % (what, i + 1))
            ctx.seen("page without object")
            continue
        added = existing(ctx, what, i + 1, a, b)
        compare(ctx, what, i + 1, exp[i], added, not tool)
        total += len(added)
        P = doc.pages[i]
        if exp[i]:
            ctx.seen("rotated page", P.rotate != 0)
            ctx.seen("page with an origin", P.origin != (0, 0))
            ctx.seen("rotated page with an origin", P.origin != (0, 0) and P.rotate != 0)
        same = all(pages0[i].get(k) == pages1[i].get(k) for k in (b"MediaBox", b"CropBox", b"Rotate", b"Contents", b"Resources"))
        ctx.check(same, "page entries", lambda: "%s: the entries of page %d changed" % (what, i + 1))
    # The text of the new file is the text of the old one (followed by the texts of the annotations, if they are drawn).
    s2, status = ctx.rec(new, stages="parsing", name="again", env=env)
    if ctx.check(not status, "not loadable", lambda: "%s: the written file cannot be loaded" % what):
        for p, q in zip(stages["parsing"].pages, s2["parsing"].pages):
            x, y = signature(stages["parsing"], p), signature(s2["parsing"], q)
            ctx.check(y[:len(x)] == x, "characters", lambda: "%s: the characters of page %d changed" % (what, p["num"]))
    for k in kinds if total else ():
        ctx.seen(k)
    ctx.seen("no kind", not kinds)
    ctx.seen("all kinds", len(kinds) == len(KINDS))
    for k, n in tags.items():
        ctx.tags[k] += n
    ctx.ok((sorted(kinds), ctx.idx))
    ctx.sample("%s: %d annotations on %d pages" % (what, total, len(doc.pages)))
