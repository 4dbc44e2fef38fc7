"""Division of pages by cuts: generated arrangements are divided with given choices; recorded documents are divided as their layout indicates."""
import cutref, layout, ref
import unitio as U
from pdfgen import Doc, Font

PROGRAMS = ["unit", "rec"]
N = {"quick": 520, "thorough": 16000}
RULE = "one division of an arrangement of elements, or of a recorded page; distinct: by the elements and the parameters"
MUST_SEE = ["unit x", "unit y", "unit xy", "unit: cut", "unit: overlapping", "unit: refused", "page", "x: chosen", "x: overlaps, few elements", "x: overlaps at the margin",
            "x: tolerated overlap", "x: small", "x: contiguous words", "x: slim left", "x: slim right", "y: one part", "y: several parts", "columns apart", "empty", "a shape without extent"]


class E:
    kind = "figure"

    def __init__(self, oid, b):
        self.oid = oid
        self.x0, self.y0, self.x1, self.y1 = b


def arrangement(r):
    """Boxes in rows and columns, with some noise; coordinates are often the same."""
    q = r.choice([1, 1, 2, 5, .1])
    n = r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40, 80])
    out = []
    k = r.random()
    jit = r.choice([0, .0007, .003])
    perm = r.sample(range(n), n)
    cols = sorted(r.sample(range(0, 300, 5), r.randint(1, 5)))
    for _ in range(n):
        if k < .3:
            x, y = r.randint(0, 60) * q, r.randint(0, 60) * q
            w, h = r.randint(0, 12) * q, r.randint(0, 12) * q
        elif k < .7:
            c = r.choice(cols)
            x, y = c + r.choice([0, 0, 0, 1, -2]), r.randint(0, 30) * 10
            w, h = r.choice([5, 20, 40, 40, 60, 120]), r.choice([8, 8, 9, 10, 11, 30])
        else:
            x, y = r.uniform(0, 300), r.uniform(0, 300)
            w, h = r.uniform(0, 40), r.uniform(0, 20)
        x, y = x + jit * perm[len(out)], y + jit * perm[-len(out)]
        out.append((x, y, x + w, y + h))
    return out


def unit_case(ctx, r):
    lines, exp = [], []
    for _ in range(40):
        boxes = arrangement(r)
        mode, ch = r.choice(["x", "y", "xy", "xy"]), r.choice(["all", "none", "rand", "rand"])
        mx, my, mo, seed = r.choice([0, 1, 2, 5, 10, 4.5]), r.choice([0, 1, 2, 5, 10]), r.choice([0, 0, 1, 1, 2, 3]), r.randint(1, 1000)
        pg = r.randint(1, 9)
        lines.append("xycut %s %s %s %d %s %d %d %s" % (mode, U.hd(mx), U.hd(my), mo, ch, seed, len(boxes), " ".join(
            U.elem((pg, *b, 0, 0)) for b in boxes)))
        exp.append((mode, ch, mx, my, mo, seed, boxes, pg))
    for l, a, e in zip(lines, U.calls(ctx, lines), exp):
        judge(ctx, l, a, *e)


def judge(ctx, call, ans, mode, ch, mx, my, mo, seed, boxes, pg):
    els = [E(i, b) for i, b in enumerate(boxes)]
    ok, rest = ans.split(" G", 1)
    gs, cs = rest.split(" C", 1)
    groups = [[int(x) for x in g.strip("[], ").split(",") if x] for g in gs.split("]") if "[" in g]
    cuts = [c.split("|") for c in cs.split()]
    flags = ok.replace(" ", "")

    def what():
        return "%s: %s" % (call[:1500], ans[:600])
    ctx.check(flags[2] == "1", "elements changed", what)
    ctx.check(flags[0] == flags[1], "without results", lambda: "the answer depends on whether the results are requested: " + what())
    ctx.seen("unit " + mode)
    ctx.seen("empty", not els)
    # Each element is in exactly one group.
    ctx.check(sorted(x for g in groups for x in g) == list(range(len(els))), "partition", lambda: "the groups do not have each element once: " + what())
    for c in cuts:
        over = [int(x) for x in c[12].split(",") if x]
        d, b, a = c[0], els[int(c[3])], els[int(c[4])]
        gap = a.x0 - b.x1 if d == "x" else a.y0 - b.y1
        ctx.check(gap >= (mx if d == "x" else my) - 2e-4 and len(over) <= (mo if d == "x" else 0), "gap", lambda: "cut %s: gap %g, overlapping %s: %s" % (c, gap, over, what()))
        ctx.check(int(c[5]) == pg and len(U.us(c[13])) == 3, "page of cut", lambda: "cut %s: %s" % (c, what()))
        ctx.seen("unit: cut", c[1] == "1")
        ctx.seen("unit: refused", c[1] == "0")
        ctx.seen("unit: overlapping", bool(over))

    def choose(cs_, s):
        for c in cs_:
            if ch != "rand":
                c.chosen = ch == "all"
                continue
            m = (1 << 64) - 1
            h = (seed * 1000003 + c.pos * 104729 + len(s) * 31) & m
            h ^= h >> 7
            h = h * 2654435761 & m
            h ^= h >> 13
            c.chosen = h & 3 != 0

    def f(es):
        if mode == "xy":
            g, c = cutref.xycut(es, mx, my, mo, choose, choose)
            k = None
        else:
            k, g, c = cutref.xcut(es, mx, mo, choose) if mode == "x" else cutref.ycut(es, my, choose)
        return k, [sorted(e.oid for e in x) for x in g], [x.key() + (len(x.over),) for x in c]
    try:
        k, g, c = cutref.same(cutref.variants(els, f))
    except cutref.Unsure:
        ctx.seen("skipped: not determined")
        return
    if not els:
        g = []
    ctx.check(k is None or flags[0] == "01"[k], "answer", lambda: "expected %s: %s" % (k, what()))
    ctx.check([sorted(x) for x in groups] == g, "groups", lambda: "expected %s: %s" % (g, what()))
    got = [(x[0], x[1] == "1", int(x[2]), tuple(round(U.ud(v), 5) for v in x[6:10]), round(U.ud(x[10]), 5), round(U.ud(x[11]), 5), len([v for v in x[12].split(",") if v])) for x in cuts]
    ctx.check(len(got) == len(c) and all(key_eq(a, b) for a, b in zip(got, c)), "cuts", lambda: "expected the cuts %s: %s" % (c[:6], what()))
    if len(els) > 1:
        ctx.ok(call)


def key_eq(a, b):
    return a[:3] == b[:3] and all(abs(x - y) < 3e-5 for x, y in zip(a[3], b[3])) and abs(a[4] - b[4]) < 3e-5 and abs(a[5] - b[5]) < 3e-5 and a[6:] == b[6:]


def columns(r, big=False):
    """Columns of rows of short words below each other, with wide lines, rules, figures, stray words, and rows that extend into the next column."""
    d = Doc()
    f = Font(b"CMR10", width=500)
    fs = 5 if big else r.choice([6, 8, 10])
    for _ in range(1 if big else r.choice([1, 1, 2])):
        W, H = (r.choice([420, 500]), 560) if big else (r.choice([300, 420, 612]), r.choice([200, 300, 400]))
        p = d.page(w=W, h=H)
        v, nth = 30, 0
        while v < H - 30:
            kind = r.random()
            if kind < .2:
                # A line across the page.
                nth += 1
                u = r.choice([30, 30, 60, W / 4]) + (.00937 * ((nth * 37) % 211) if big else 0)
                end = W - r.choice([30, 30, 80, 200])
                while u < end:
                    u += p.text_run([list(r.choice(layout.VOCAB)[:6])], u, v, f, fs) + .35 * fs
                v += r.choice([1.3, 1.6, 2, 3]) * fs
                continue
            if kind < .27:
                p.path([(30, v), (r.choice([60, 150, W - 30]), v)])
                if r.random() < .3:
                    x = r.choice([40, 31, W / 2])
                    p.path([(x, v + 2), (x, v + 2)])    # a dot
                v += r.choice([4, 8, 14])
                continue
            if kind < .32:
                p.image(r.choice([30, 100]), v, r.choice([130, W - 40]), v + 40)
                v += 48
                continue
            n = r.choice([1, 2, 2, 2, 2, 3, 4]) if not big else 2
            sep = r.choice([.8, 1, 1.5, 2, 3, 4]) * fs if not big else 18
            wide = [r.choice([.3, 1, 1, 1]) for _ in range(n)]
            u, bounds = 30, []
            for k in wide:
                w = (W - 60 - (n - 1) * sep) * k / sum(wide)
                bounds.append((u, u + w))
                u += w + sep
            rows = r.choice([1, 2, 3, 6, 12]) if not big else r.choice([30, 40, 50])
            long_ = (r.randrange(rows), r.choice([0, 1, .5])) if r.random() < (.5 if not big else .85) else (-1, 0)
            if big and r.random() < .75:
                long_ = (r.randint(10, 22), .5)
            acc = r.random() < .5           # row by row, or column by column
            cells = [(i, c) for i in range(rows) for c in range(n)] if acc else [(i, c) for c in range(n) for i in range(rows)]
            gap = r.choice([1.3, 1.3, 1.5, 2.2])
            if big:
                gap = 1.45
            for i, c in cells:
                y = v + i * gap * fs
                if y > H - 20:
                    continue
                a, b = bounds[c]
                if i == long_[0] and c == 0:
                    b = b + sep * .5 + (fs if long_[1] else 0)
                nth += 1
                x = a + (.00937 * ((nth * 37) % 211) if big else 0)
                while True:
                    w = r.choice(layout.VOCAB)[:r.choice([2, 3, 4]) if big else 6]
                    ww = len(w) * .5 * fs
                    if x + ww > b:
                        break
                    p.text_run([list(w)], x, y, f, fs)
                    x += ww + .35 * fs
                    if r.random() < .02:
                        break
                if i == long_[0] and c == 0 and x > a:
                    # The last word of the row extends beyond the column.
                    p.text_run([list("overlong" if r.random() < .5 else "extraordinary")], bounds[c][1] - .8 * fs, y, f, fs * .9)
            v += rows * gap * fs + r.choice([0, .3, 1, 2, 3]) * fs
        if r.random() < .2:
            u = W / 2
            p.path([(u, 20), (u, H - 20)])
    return d


def case(ctx):
    r = ctx.rng
    if ctx.idx % 5 == 0:
        return unit_case(ctx, r)
    k = ctx.idx % 13
    art = None
    if k == 1 and ctx.idx % 5 > 1:
        doc = columns(r, big=True)
    elif k in (2, 3):
        art = layout.Article(r, ncols=2, size=(595, 500), indent=0)
        doc = art.doc
    elif k in (4, 5):
        doc = layout.anydoc(r)
    else:
        doc = columns(r)
    sts, status = ctx.rec(doc, stages="segmentation", skip="fonts")
    if status:
        return
    st = sts["segmentation"]
    for p in st.pages:
        page(ctx, st, p)
    if art:
        apart(ctx, st, art)


def apart(ctx, st, art):
    """The columns of an article are in different segments."""
    cw = (595 - 2 * art.margin)
    mid = 595 / 2
    for p in st.pages:
        for s in st.get(p["segments"]):
            ws = [w for w in st.get(s.elements) if w.kind == "word" and abs(w.fs - art.fs) < .01]
            l, r_ = [w for w in ws if w.x1 < mid], [w for w in ws if w.x0 > mid]
            # Words of both columns are in one part only if it has few rows.
            ys = {round(w.y0) for w in ws}
            if l and r_ and len(ys) > 6:
                ctx.check(False, "columns", lambda: "%s has words of both columns: %s | %s (column width %g)" % (s, l[:3], r_[:3], cw))
            ctx.seen("columns apart", bool(l) != bool(r_))


def page(ctx, st, p):
    els = [e for k in ("words", "figures", "graphics", "shapes") for e in st.get(p[k])]
    segs = st.get(p["segments"])
    flat = [o for s in segs for o in s.elements]
    ctx.check(sorted(flat) == sorted(e.oid for e in els), "partition", lambda: "page %d: the segments do not have each word, figure, graphic and shape once" % p["num"])
    for s in segs:
        ctx.check(ref.boxdiff(s.box(), ref.union(st.get(s.elements))) < 1e-6 and s.page == p["num"], "box", lambda: "%s: the box of its elements is %s" % (s, ref.union(st.get(s.elements))))
    tags = []

    def f(es):
        tags.clear()
        m = cutref.Segmentation(st, lambda t, n=1: tags.append(t))
        g, c = m.run(es)
        return [sorted(e.oid for e in x) for x in g], [x.key() for x in c]
    try:
        exp = cutref.same(cutref.variants(els, f, strict=False))
    except cutref.Unsure:
        ctx.seen("page skipped: not determined")
        return
    for t in tags:
        ctx.seen(t)
    got = [sorted(s.elements) for s in segs]
    if got != exp[0]:
        i = next((i for i, (a, b) in enumerate(zip(got, exp[0])) if a != b), min(len(got), len(exp[0])))
        ctx.fail("segments", "page %d: segment %d of %d has %s; expected (%d segments): %s" % (p["num"], i, len(got), [repr(e) for e in st.get(got[i])][:8] if i < len(got) else None,
                 len(exp[0]), [repr(e) for e in st.get(exp[0][i])][:8] if i < len(exp[0]) else None))
    c = [(x["dir"], bool(x["chosen"]), x["pos"], tuple(round(v, 5) for v in x["p"]), round(x["gw"], 5), round(x["gh"], 5)) for x in p["bcuts"]]
    ctx.check(len(c) == len(exp[1]) and all(key_eq(a, b) for a, b in zip(c, exp[1])), "cuts", lambda: "page %d: cuts that differ: %s" % (
        p["num"], next(((a, b) for a, b in zip(c, exp[1]) if not key_eq(a, b)), (len(c), len(exp[1])))))
    ctx.check(all(x["page"] == p["num"] for x in p["bcuts"]), "page of cut", "page %d: cut of another page" % p["num"])
    ctx.seen("page")
    ctx.seen("a shape without extent", any(e.x0 == e.x1 and e.y0 == e.y1 for e in st.get(p["shapes"])))
    if len(els) > 1:
        ctx.ok(tuple(e.box() for e in els))
        ctx.sample("%d elements in %d segments by %d of %d cuts" % (len(els), len(segs), sum(x["chosen"] for x in p["bcuts"]), len(c)))
