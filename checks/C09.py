"""Order of the text blocks: arrangements of blocks with all roles are compared with a reference model; articles with their known order."""
import cutref, layout, ref
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 260, "thorough": 9000}
RULE = "one recorded page with at least two text blocks; distinct: by the boxes and roles of its elements"
MUST_SEE = ["page", "several groups", "order: article", "order: known", "y: part below", "y: part above", "y: part between", "first x: rotated text", "first x: high separator",
            "first x: not chosen", "first y: title", "first y: authors", "first y: marginal", "first y: wide separator", "first y: not chosen", "order changed"]


def arrangement(r):
    """Small blocks in rows and columns of all kinds, with rules, images and turned text."""
    d = Doc()
    fonts = [Font(b"CMR10", width=500), Font(b"CMBX10", width=500, weight=700, flags=32 + (1 << 18)), Font(b"CMTI10", width=500, flags=96, italic_angle=-12),
             Font(b"CMBXTI10", width=500, weight=700, flags=96 + (1 << 18), italic_angle=-12)]
    fs = r.choice([5, 6, 8])
    for _ in range(r.choice([1, 1, 2])):
        W, H = r.choice([300, 420, 612]), r.choice([300, 400, 500])
        p = d.page(w=W, h=H)

        def block(u, v, w, n, f):
            """n lines of about the width w."""
            for i in range(n):
                words, x = [], 0
                while True:
                    t = r.choice(layout.VOCAB)[:7]
                    if x + len(t) * .5 * fs > w and words:
                        break
                    words.append(list(t))
                    x += len(t) * .5 * fs + .35 * fs
                    if r.random() < .04:
                        break
                p.text_run(words, u, v + i * 1.25 * fs, f, fs, wordgap=.35 * fs)
            return n * 1.25 * fs
        f0 = 20 + r.choice([0, 0, 0, 25])
        if f0 > 20:
            # Turned text at the left edge.
            p.text_run([list("turned"), list("text")], 22, H - 60, fonts[0], fs, rot=r.choice([1, 3]), wordgap=.35 * fs)
            if r.random() < .3:
                # Vertical writing, turned so that it runs from left to right.
                vert, y = Font(b"Mincho", kind="cidv", width=1000), r.choice([60, H / 2, H - 60])
                for i, t in enumerate("縦書"[:r.choice([1, 2])]):
                    p.glyph(t, r.choice([0, W - 45]) + 22 + fs * i if i == 0 else p.glyphs[-1].x + fs, y, vert, fs, rot=3)
            if r.random() < .3:
                p.text_run([list("upside"), list("down")], f0 + 60, H - 12, fonts[0], fs, rot=2, wordgap=.35 * fs)
        if r.random() < .25:
            u = r.choice([W / 2, W / 3, f0 - 2, f0 - 2, W - 18])
            # Up to about the middle, or over it.
            e = r.uniform(-12, 12)
            if r.random() < .35:
                # Not very high, across the middle.
                m, h = H / 2 + r.uniform(-3, 3) * fs, r.uniform(3, 16) * fs
                p.path([(u, m - h / 2), (u, m + h / 2)])
            else:
                p.path([(u, r.choice([10, 10, H / 2 + 20, H / 2 + e])), (u, H - r.choice([10, 10, H / 2 + 20, H / 2 + e]))])
        v = 20 + fs
        jit = r.choice([0, 1.5, 1.5])
        while v < H - 25:
            n = r.choice([1, 1, 2, 2, 3, 4])
            sep = r.choice([1.5, 2, 4]) * fs
            wide = [r.choice([.5, 1, 1, 1, 1.5]) for _ in range(n)]
            u, low = f0, v
            for k in wide:
                w = (W - f0 - 20 - (n - 1) * sep) * k / sum(wide)
                y = v + r.choice([0, 0, 0, 4, 20]) + jit * r.random()
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    if y > H - 20:
                        break
                    c = r.random()
                    if c < .08:
                        b = (u, y, u + w * r.choice([.5, 1]), y + r.choice([20, 40]))
                        fig = r.random() < .8
                        if fig:
                            p.push_clip(*b)
                        p.image(b[0] + 1, b[1] + 1, b[2] - 1, b[3] - 1)
                        if fig:
                            p.pop()
                        y += 50
                    elif c < .14:
                        p.path([(u, y), (u + w * r.choice([.3, 1]), y)])
                        y += 4 + fs
                    else:
                        m = min(r.choice([1, 1, 2, 3, 6]), int((H - 15 - y) / (1.25 * fs)) + 1)
                        y += block(u, y, w * r.choice([1, 1, .8]), m, r.choice(fonts) if r.random() < .3 else fonts[0]) + r.choice([.8, 1.5, 3]) * fs
                low = max(low, y)
                u += w + sep
            v = low + r.choice([.2, 1, 2, 4]) * fs
            if r.random() < .12:
                e = r.uniform(-12, 12)
                p.path([(r.choice([f0, W / 2 + 20, W / 2 + e]), v - fs), (r.choice([W - 20, W / 2 - 20, W / 2 + e]), v - fs)])
                v += fs
    return d


def known(r):
    """A page of parts with a known order: (document, the words in the expected order). The style of the text tells its role to the model."""
    d = Doc()
    p = d.page(w=600, h=760)
    f = {"": Font(b"CMR10", width=500), "title": Font(b"CMBX10", width=500, weight=700, flags=32 + (1 << 18)),
         "author": Font(b"CMTI10", width=500, flags=96, italic_angle=-12), "marginal": Font(b"CMBXTI10", width=500, weight=700, flags=96 + (1 << 18), italic_angle=-12)}
    fs, seq, out = r.choice([9, 10]), [0], []

    def lines(u, w, v, n, role=""):
        for i in range(n):
            x, words = 0, []
            while x < w - 8 * fs:
                seq[0] += 1
                t = "%s%d" % (r.choice("abcdefgh") + r.choice("klmnopqr"), seq[0])
                words.append(list(t))
                out.append((seq[0], t))
                x += len(t) * .5 * fs + .35 * fs
            p.text_run(words, u, v + i * 1.25 * fs, f[role], fs, wordgap=.35 * fs)
        return v + (n - 1) * 1.25 * fs
    order = []

    def part(u, w, v, n, role=""):
        k = len(out)
        y = lines(u, w, v, n, role)
        order.extend(t for _, t in out[k:])
        return y
    marg = r.random() < .5
    if marg:
        part(60, r.choice([150, 480]), 40, 1, "marginal")
    v = 90
    if r.random() < .8:
        v = part(60, 480, v, 1, "title") + 30
    ncol = r.choice([2, 2, 3])
    sep = 30
    w = (480 - (ncol - 1) * sep) / ncol
    cols = [(60 + i * (w + sep), w) for i in range(ncol)]
    aut = r.random() < .7
    if aut:
        rows = r.choice([1, 2])
        ys = [v]
        for u, w_ in cols[:ncol if r.random() < .7 else 1]:
            ys.append(part(u, w_, v, rows, "author"))
        v = max(ys) + 26
    # Areas of columns, separated by lines across the page.
    while v < 560:
        ys = [v]
        for u, w_ in cols:
            y = v
            for _ in range(r.choice([1, 2])):
                y = part(u, w_, y, r.randint(2, 6)) + r.choice([1.9, 2.2]) * fs
            ys.append(y)
        v = max(ys) + 16
        if v < 560:
            c = r.random()
            if c < .5:
                v = part(60, 480, v, r.randint(1, 3)) + 30
            elif c < .8:
                p.path([(60, v - 8), (540, v - 8)])
                v += 14
            else:
                p.push_clip(100, v - 8, 500, v + 40)
                p.image(101, v - 7, 499, v + 39)
                p.pop()
                v += 70
    if marg:
        part(60, 480, 720, 1, "marginal")
    return d, order


def case(ctx):
    r = ctx.rng
    k = ctx.idx % 6
    art = exp = None
    env = {}
    if k == 0:
        art = layout.Article(r, size=(595, 500), rot=0)
        doc = art.doc
        env["PPP_STUB_MODEL"] = "const:0"
    elif k == 1:
        doc, exp = known(r)
        env["PPP_STUB_MODEL"] = "style"
    elif k == 2:
        doc = layout.anydoc(r)
    else:
        doc = arrangement(r)
        env["PPP_STUB_MODEL"] = r.choice(["style", "style", "hash", "seq", "const:0"])
        env["PPP_STUB_SEED"] = str(r.randint(0, 999))
    sts, status = ctx.rec(doc, stages="blocks,reading-order,final", skip="fonts", env=env)
    if status:
        return
    for b, a in zip(sts["blocks"].pages, sts["reading-order"].pages):
        page(ctx, sts["blocks"], sts["reading-order"], b, a)
    fin = sts["final"]
    ctx.check([p["blocks"] for p in fin.pages] == [p["blocks"] for p in sts["reading-order"].pages], "final order", "the order of the text blocks was changed later")
    words = [[w.text for o in p["blocks"] for l in fin.get(fin.get([o])[0].lines) for w in fin.get(l.words)] for p in fin.pages]
    if exp:
        got = words[0]
        i = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
        ctx.check(got == exp, "known order", lambda: "after %s came %s instead of %s" % (exp[max(0, i - 3):i], got[i:i + 3], exp[i:i + 3]))
        ctx.seen("order: known")
    if art:
        for p, got in zip(fin.pages, words):
            e = [w for q in art.paras if q.page == p["num"] for l in q.lines for w in l]
            i = next((i for i, (x, y) in enumerate(zip(got, e)) if x != y), min(len(got), len(e)))
            ctx.check(got == e, "article order", lambda: "page %d: after %s came %s instead of %s" % (p["num"], e[max(0, i - 3):i], got[i:i + 3], e[i:i + 3]))
        ctx.seen("order: article")


def page(ctx, sb, sa, b, a):
    before, after = b["blocks"], a["blocks"]
    ctx.check(sorted(before) == sorted(after), "each once", lambda: "page %d: text blocks %s before and %s after the ordering" % (b["num"], before, after))
    els = [e for k in ("blocks", "figures", "shapes") for e in sb.get(b[k])]
    roles = {o.oid: o.role for o in sa.get(after)}
    tags = []

    def f(es):
        tags.clear()
        m = cutref.ReadingOrder(sb, roles, lambda t, n=1: tags.append(t))
        bs, cs = m.run(es)
        return bs, [c.key() for c in cs]
    try:
        order, cuts = cutref.same(cutref.variants(els, f))
    except cutref.Unsure:
        ctx.seen("skipped: not determined")
        return
    for t in tags:
        ctx.seen(t)
    i = next((i for i, (x, y) in enumerate(zip(after, order)) if x != y), 0)
    ctx.check(after == order, "order", lambda: "page %d: text block %d is %s; expected %s" % (b["num"], i, sb.get([after[i]])[0], sb.get([order[i]])[0]))
    c = [(x["dir"], bool(x["chosen"]), x["pos"], tuple(round(v, 5) for v in x["p"]), round(x["gw"], 5), round(x["gh"], 5)) for x in a["rcuts"]]

    def eq(x, y):
        return x[:3] == y[:3] and all(abs(p - q) < 3e-5 for p, q in zip((*x[3], *x[4:]), (*y[3], *y[4:])))
    ctx.check(len(c) == len(cuts) and all(eq(x, y) for x, y in zip(c, cuts)), "cuts", lambda: "page %d: cuts that differ: %s" % (
        b["num"], next(((x, y) for x, y in zip(c, cuts) if not eq(x, y)), (len(c), len(cuts)))))
    ctx.check(all(x["page"] == b["num"] for x in a["rcuts"]), "page of cut", "page %d: cut of another page" % b["num"])
    ctx.seen("page")
    ctx.seen("order changed", before != after)
    if len(before) > 1:
        ctx.seen("several groups", any(x[1] for x in cuts))
        ctx.ok((tuple(e.box() for e in els), tuple(sorted(roles.items()))))
        ctx.sample("%d blocks, %d other elements, %d of %d cuts chosen%s" % (len(before), len(els) - len(before), sum(x[1] for x in cuts), len(cuts),
                                                                            ", order changed" if before != after else ""))
