"""Text lines: words of one direction with the same base line, or that overlap sufficiently across the direction of writing, make up a line."""
import collections

import layout, ref
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 420, "thorough": 12000}
RULE = "one text line that was extracted, with its words; distinct: by text, direction and box"
MUST_SEE = ["rot0", "rot1", "rot2", "rot3", "merged", "merged over two rounds", "kept apart: overlap below 0.4", "kept apart: overlap below 0.8 and large gap",
            "merged: overlap above 0.8 and large gap", "stacked", "several directions in a segment", "sibling", "parent", "grandparent", "hierarchy restarted", "trim box by lines",
            "trim box by segment", "article line", "order of words differs from drawing", "mixed sizes", "scripts"]
CMP = 1e-7


def rows(r):
    """Rows of words in one direction (sometimes several), with shifts across, jumps back, indentation and various sizes."""
    d = Doc()
    rot = r.choice([0, 0, 0, 1, 2, 3])
    W, H = 420, 420
    for _ in range(r.choice([1, 1, 2])):
        p = d.page(w=W, h=H)
        fonts = [Font(b"CMR10", width=500), Font(b"CMBX10", width=540, weight=700), Font(b"CMSY10", width=620)]
        fs = r.choice([8, 10, 12])

        def dev(u, v, rt):
            return {0: (u, v), 1: (W - v, u), 2: (W - u, H - v), 3: (v, H - u)}[rt]
        v, ind = 40, 0
        while v < 380:
            ind = max(0, min(6, ind + r.choice([0, 0, 0, 1, 1, -1, -2, 2])))
            u = 40 + ind * r.choice([4, 8, 12])
            f, s = fonts[0] if r.random() < .85 else r.choice(fonts), fs if r.random() < .85 else r.choice([fs - 2, fs + 3, fs * 2])
            ws = []
            while u < r.choice([200, 380]):
                word = r.choice(layout.VOCAB)[:7]
                sh = r.choice([0] * 14 + [.1, -.1, .3, -.4, .5, .7, .75, .85, 1.0, 1.1]) * s
                k = s if r.random() < .9 else r.choice([.6, .8, 1.4]) * s
                if r.random() < .04:
                    word = r.choice(["∑", "lim"])
                ws.append((word, u, v + sh, f if r.random() < .93 else r.choice(fonts), k))
                u += sum(f.width(c) for c in word) * f.unit() * k + r.choice([.3] * 12 + [.6, 1, 2, 4]) * s
            if r.random() < .15:
                r.shuffle(ws)
            rt = rot if r.random() < .97 else r.randint(0, 3)
            for word, a, b, ff, k in ws:
                x, y = dev(a, b, rt)
                p.text_run([list(word)], x, y, ff, k, rot=rt)
                if word in ("∑", "lim") and r.random() < .8:
                    x, y = dev(a, b + r.choice([1, -1]) * k * r.choice([.9, 1.2]), rt)
                    p.text_run([list("i=1")], x, y, ff, .5 * k, rot=rt)
            v += r.choice([1.2] * 8 + [.5, .8, 1, 1.6, 2, 3]) * s
    return d


def rlo_sorted(lines, rot):
    return sorted(lines, key=lambda l: l.rlo(), reverse=rot in (1, 2))


class Line:
    def __init__(self, words):
        self.words = words
        self.x0, self.y0, self.x1, self.y1 = ref.union(words)
        self.rot = words[0].rot
        self.ends = 1

    def rlo(self):
        return (self.y1, self.x0, self.y0, self.x1)[self.rot]


def expected(ctx, st, seg, aw):
    """{direction: lines in order}, or None if the result is not determined."""
    words = [e for e in st.get(seg.elements) if e.kind == "word"]
    cl = collections.OrderedDict()
    for w in words:
        if w.partOf:
            continue
        k = cl.setdefault(w.rot, collections.OrderedDict()).setdefault(round(w.rlo(), 4), [])
        k.append(w)
        k += st.get(w.stackBaseOf)
        if w.stackBaseOf:
            ctx.seen("stacked")
    out = {}
    if len(cl) > 1:
        ctx.seen("several directions in a segment")
    for rot, c in cl.items():
        if any(w.rot != rot for ws in c.values() for w in ws):
            return None
        lines = rlo_sorted([Line(ws) for ws in c.values()], rot)
        if any(abs(a.rlo() - b.rlo()) < 1e-3 for a, b in zip(lines, lines[1:])):
            return None
        rounds = 0
        while True:
            new, merged = [], False
            for l in lines:
                if new:
                    q = new[-1]
                    v = rot in (1, 3)
                    gap = ref.vgap(q, l) if v else ref.hgap(q, l)
                    over = ref.xover(q, l) if v else ref.yover(q, l)
                    if abs(gap - 3 * aw) < CMP:
                        return None
                    far = not gap < 3 * aw
                    thr = .8 if far else .4
                    if abs(over - thr + 1e-4) < CMP:
                        return None
                    if over >= thr - 1e-4:
                        new[-1] = Line(q.words + l.words)
                        merged = True
                        ctx.seen("merged: overlap above 0.8 and large gap" if far else "merged")
                        ctx.seen("merged over two rounds", rounds > 0)
                        continue
                    if far and over >= .4:
                        ctx.seen("kept apart: overlap below 0.8 and large gap")
                    elif over > 0:
                        ctx.seen("kept apart: overlap below 0.4")
                new.append(l)
            lines, rounds = new, rounds + 1
            if not merged:
                break
        out[rot] = lines
    return out


def case(ctx):
    r = ctx.rng
    art = None
    k = ctx.idx % 4
    if k == 0:
        doc = layout.anydoc(r)
    elif k == 1:
        rot = r.choice([0, 0, 0, 1, 2, 3])
        art = layout.Article(r, rot=rot, ncols=1 if rot else None, size=(420, 560))
        doc = art.doc
    else:
        doc = rows(r)
    sts, status = ctx.rec(doc, stages="segmentation,lines")
    if status:
        return
    before, st = sts["segmentation"], sts["lines"]
    aw = st.stats["avgCharWidth"]
    for pb, p in zip(before.pages, st.pages):
        sure = True
        for so, s in zip(before.get(pb["segments"]), st.get(p["segments"])):
            exp = expected(ctx, before, so, aw)
            if exp is None:
                ctx.seen("skipped: not determined")
                sure = False
                continue
            segment(ctx, st, s, exp)
        hierarchy(ctx, st, p, aw)
    if art:
        truth = [l for q in art.paras for l in q.lines]
        got = [l.text for p in st.pages for s in st.get(p["segments"]) for l in st.get(s.lines)]
        a, b = collections.Counter(" ".join(l) for l in truth), collections.Counter(got)
        ctx.seen("article line", len(truth))
        ctx.check(a == b, "article lines", lambda: "drawn in direction %d, but not extracted as a line: %s; extracted instead: %s" % (
            art.rot, list((a - b))[:4], list((b - a))[:4]))
        ctx.sample("article, direction %d: %s" % (art.rot, got[:2]))


def segment(ctx, st, s, exp):
    lines = st.get(s.lines)
    got = collections.OrderedDict()
    for l in lines:
        got.setdefault(l.rot, []).append(l)
    for rot in sorted(set(got) | set(exp)):
        e, g = exp.get(rot, []), got.get(rot, [])
        es, gs = [sorted(w.oid for w in l.words) for l in e], [sorted(l.words) for l in g]
        if es != gs:
            i = next((i for i, (a, b) in enumerate(zip(es, gs)) if a != b), min(len(es), len(gs)))
            ctx.fail("lines", "%s: line %d of direction %d has the words %s instead of %s (%d lines instead of %d)" % (
                s, i, rot, [w.text for w in st.get(g[i].words)] if i < len(g) else [], [w.text for w in e[i].words] if i < len(e) else [], len(g), len(e)))
            continue
        for l, x in zip(g, e):
            ws = st.get(l.words)
            ls = [w.rl() for w in ws]
            if rot in (2, 3):
                ls = [-v for v in ls]
            ctx.check(all(a <= b + 2e-4 for a, b in zip(ls, ls[1:])), "order of words", lambda: "the words of %s are in the order %s" % (l, [(w.text, w.rl()) for w in ws]))
            ctx.check(l.text == " ".join(w.text for w in ws), "text", lambda: "%s has the text %r" % (l, l.text))
            ctx.check(ref.boxdiff(l.box(), ref.union(ws)) < 1e-6, "box", lambda: "%s: box of its words %s" % (l, ref.union(ws)))
            cs = [c for w in ws for c in st.get(w.chars)]
            ctx.check(ref.is_mode(l.base, [c.base for c in cs]), "base", lambda: "%s has the base line %g; its characters: %s" % (l, l.base, [c.base for c in cs]))
            ctx.check(ref.is_mode(l.fs, [c.fs for c in cs]), "size", lambda: "%s has the size %g; its characters: %s" % (l, l.fs, [c.fs for c in cs]))
            ctx.check(abs(l.maxfs - max(c.fs for c in cs)) < 1e-6, "largest size", lambda: "%s has the largest size %g" % (l, l.maxfs))
            ctx.check(ref.is_mode(l.font, [c.font for c in cs]), "font", lambda: "%s has the font %s" % (l, l.font))
            rk = [w.rank for w in ws]
            ctx.seen("order of words differs from drawing", rk != sorted(rk))
            ctx.seen("mixed sizes", len({c.fs for c in cs}) > 1)
            ctx.seen("scripts", len({c.base for c in cs}) > 1)
            ctx.seen("rot%d" % rot)
            ctx.ok((l.text, rot, l.box()))
    # The trim box.
    if lines:
        xs = [ref.round_half_away(l.rr(), 0) for l in lines]
        c = collections.Counter(xs)
        n = max(c.values())
        t = s.trim
        cand = [v for v, k in c.items() if k == n] if n / len(lines) >= .5 - 1e-4 else [s.x1]
        if any(abs(l.rr() * 2 - round(l.rr() * 2)) < 1e-6 and abs(l.rr() - round(l.rr())) > .1 for l in lines):
            ctx.seen("skipped: tie of rounding")
        else:
            ctx.check(any(abs(t[2] - v) < 1e-6 for v in cand) and ref.boxdiff((t[0], t[1], t[3]), (s.x0, s.y0, s.y1)) < 1e-6, "trim box",
                      lambda: "%s has the trim box %s; the right ends of its lines are %s" % (s, t, xs))
            ctx.seen("trim box by lines" if n / len(lines) >= .5 else "trim box by segment")


def hierarchy(ctx, st, p, aw):
    """Siblings and parents: a line below another one with the same left margin is its sibling; with a larger one, its child."""
    lines = [l for s in st.get(p["segments"]) for l in st.get(s.lines)]
    stack, prev = [], None
    parent, psib, nsib = {}, {}, {}
    seen = collections.Counter()

    def tie(d, t):
        return abs(abs(d) - t) < 1e-6
    for l in lines:
        if prev and prev.rot == l.rot and prev.wmode == l.wmode:
            d = abs(ref.vgap(prev, l))
            if tie(d, 10.1):
                return ctx.seen("skipped: tie of hierarchy")
            if d > 10.1:
                stack = []
                seen["hierarchy restarted"] += 1
        prev = l
        while stack and stack[-1].x0 > l.x0 + aw:
            if tie(stack[-1].x0 - l.x0, aw):
                return ctx.seen("skipped: tie of hierarchy")
            stack.pop()
        if not stack:
            stack.append(l)
            continue
        t = stack[-1]
        if tie(t.x0 - l.x0, aw) or tie(l.y1 - t.y1, .1):
            return ctx.seen("skipped: tie of hierarchy")
        if t.y1 >= l.y1 - .1:
            continue
        if abs(t.x0 - l.x0) <= aw:
            nsib[t.oid], psib[l.oid] = l.oid, t.oid
            parent[l.oid] = parent.get(t.oid, 0)
            stack[-1] = l
            seen["sibling"] += 1
        else:
            parent[l.oid] = t.oid
            stack.append(l)
            seen["parent"] += 1
            seen["grandparent"] += bool(parent.get(t.oid))
    ctx.tags += seen
    for l in lines:
        for got, exp, key in ((l.parent, parent, "parent"), (l.prevSib, psib, "previous sibling"), (l.nextSib, nsib, "next sibling")):
            ctx.check(got == exp.get(l.oid, 0), key, lambda: "page %d: the %s of %s is %s instead of %s" % (
                p["num"], key, l, st.all.get(got), st.all.get(exp.get(l.oid, 0))))
