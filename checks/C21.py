"""Every painted path and image is extracted with its visible extent, and all that shares a clip box makes up one figure."""
import math
import chaos
from pdfgen import Doc, Font
from checks.C02 import compare, expected_text, WS

PROGRAMS = ["rec"]
N = {"quick": 1600, "thorough": 24000}
RULE = "one painted path or image, or one clip box with elements; distinct: by box, clip box and kind"
MUST_SEE = ["clip boxes that differ in one border", "shape", "graphic", "figure", "nested-clip", "clipped-shape", "hidden-shape", "partly-hidden-shape", "hidden-graphic", "filled", "filled-even-odd",
            "stroked-and-filled", "line", "rotated-page", "glyph-in-figure", "shape-in-figure", "graphic-in-figure", "mixed-figure", "same-clip-twice",
            "form", "inline-image", "image-mask", "skewed-image", "image masked by stencil", "image masked by soft", "image masked by color"]
ASSUMPTIONS = ["Poppler reports painting operators and clip boxes correctly"]
EPS = .062
PAINTS = {b"S": 1, b"s": 1, b"f": 1, b"f*": 1, b"B": 2, b"b": 2, b"B*": 2, b"n": 0}


def rnd(v):
    return round(v * 10) / 10


class Ambiguous(Exception):
    pass


def clipbox(p, clip):
    c = clip or (0, 0, p.w, p.h)
    return tuple(c)


def inside(v, lo, hi):
    """Whether a coordinate lies in the open interval; the program has a tolerance of 0.1 on values that are rounded to 0.1."""
    for b in (lo, hi):
        if abs(v - b) < .25:
            raise Ambiguous
    return lo < v < hi


def same(a, b):
    d = max(abs(x - y) for x, y in zip(a, b))
    if .01 < d < .35:
        raise Ambiguous
    return d <= .01


def close(a, b):
    return max(abs(x - y) for x, y in zip(a, b)) <= EPS


def border(ctx):
    """What reaches or crosses the border of its clip box is visible, too."""
    d = Doc()
    p = d.page(w=400, h=300)
    p.glyph("x", 20, 20, Font(b"CMR10", width=500), 10)
    for i, (what, b) in enumerate((("fills", (100, 100, 300, 200)), ("crosses", (90, 120, 250, 180)))):
        p.push_clip(100, 100 + i, 300, 200 + i)
        p.image(b[0], b[1] + i, b[2], b[3] + i)
        p.pop()
    p.push_clip(100, 102, 300, 202)
    p.path([(50, 150), (350, 150)])
    p.pop()
    sts, status = ctx.rec(d, stages="parsing")
    st = sts["parsing"]
    figs = {f.clip[1]: f for f in st.get(st.pages[0]["figures"])}
    for i, (kind, what) in enumerate((("graphics", "image that fills its clip box"), ("graphics", "image that crosses the border of its clip box"),
                                      ("shapes", "line that crosses its clip box from side to side"))):
        f = figs.get(100 + i)
        ctx.check(f is not None and len(f[kind]) == 1, "border: " + what, "an %s is visible, but is not extracted: figures: %s" % (what, list(figs.values())))


def case(ctx):
    r = ctx.rng
    if ctx.idx == 0:
        return border(ctx)
    m = chaos.Maker(r, nfonts=2)
    d = m.doc
    order = {}
    for p in d.pages:
        m.p = p
        boxes = [m.box(big=True) for _ in range(r.randint(1, 3))]
        depth = 0
        for _ in range(r.choice([4, 10, 25])):
            x = r.random()
            if x < .35:
                m.path()
                pts, clip, how = p.shapes[-1]
                if how in (b"B", b"f*", b"b", b"B*"):
                    ctx.seen("stroked-and-filled" if PAINTS[how] == 2 else "filled-even-odd")
                if how == b"f":
                    ctx.seen("filled")
                if len(pts) == 2:
                    ctx.seen("line")
            elif x < .6:
                b = m.box()
                if r.random() < .2:
                    w, h = b[2] - b[0], b[3] - b[1]
                    b = r.choice([(b[0] - p.w, b[1], b[2] - p.w, b[3]), (b[0], b[1] + p.h, b[2], b[3] + p.h), (b[0], b[1] - 1.5 * h, b[2], b[3] - h)])
                if r.random() < .3:
                    # Rotated by any angle, or skewed, or mirrored.
                    t, w, h = math.radians(r.choice([30, 45, 100, 170, 200, 300, r.uniform(0, 360)])), r.uniform(5, 60), r.uniform(5, 60)
                    k = math.radians(r.choice([90, 90, -90, 60, 120]))
                    p.skewed_image((r.uniform(60, p.w - 60), r.uniform(60, p.h - 60)), (w * math.cos(t), w * math.sin(t)), (h * math.cos(t + k), h * math.sin(t + k)))
                    ctx.seen("skewed-image")
                    continue
                inl, mask = r.random() < .3, r.random() < .3
                if r.random() < .3:
                    inl, mask = False, r.choice(["stencil", "soft", "color"])
                p.image(*b, inline=inl, mask=mask, turn=p.rotate // 90)
                ctx.seen("inline-image" if inl else "image-mask" if mask is True else "image masked by %s" % mask if mask else "image")
            elif x < .75:
                m.run(n=r.randint(1, 4))
            elif x < .9 and depth < 3:
                b = r.choice(boxes) if r.random() < .7 else m.box(big=True)
                c = p.clip or (0, 0, p.w, p.h)
                n = (max(c[0], b[0]), max(c[1], b[1]), min(c[2], b[2]), min(c[3], b[3]))
                if n[2] - n[0] > 5 and n[3] - n[1] > 5:
                    if depth:
                        ctx.seen("nested-clip")
                    p.push_clip(*b)
                    depth += 1
            elif depth:
                p.pop()
                depth -= 1
        for _ in range(depth):
            p.pop()
        if r.random() < .35:
            # Several clip boxes that differ in one border only, with all kinds of content.
            b = m.box(big=True)
            b = [max(b[0], 0), max(b[1], 0), min(b[2], p.w), min(b[3], p.h)]
            if b[2] - b[0] > 40 and b[3] - b[1] > 40:
                i = r.randrange(4)
                c = list(b)
                c[i] += (1, 1, -1, -1)[i] * r.choice([2, 8, 15])
                for k in [b, c] * r.choice([1, 1, 2]):
                    p.push_clip(*k)
                    for _ in range(r.choice([1, 1, 2])):
                        u, v = r.uniform(b[0] + 16, b[2] - 20), r.uniform(b[1] + 16, b[3] - 20)
                        x = r.random()
                        if x < .4:
                            m.glyph(m.char(spaces=0), round(u, 1), round(v, 1), m.font(), 4, 0)
                        elif x < .7:
                            p.image(u, v, u + 3, v + 3)
                        else:
                            p.path([(u, v), (u + 3, v), (u + 3, v + 2)], b"f", closed=True)
                    p.pop()
                ctx.seen("clip boxes that differ in one border")
        if r.random() < .3:
            p.begin_form(*r.choice([m.box(big=True), (0, 0, p.w, p.h), (-9, -9, p.w + 9, p.h + 9)]))
            for _ in range(r.randint(1, 4)):
                r.choice([m.path, m.image, m.run])()
            p.end_form()
            ctx.seen("form")
    sts, status = ctx.rec(d, stages="parsing")
    st = sts["parsing"]
    ctx.check(status == 0, "status", "the document could not be loaded")
    pairs = compare(ctx, d.glyphs(), st)
    if ctx.fails:
        return
    ctx.check(len(st.pages) == len(d.pages), "pages", "%d pages" % len(st.pages))
    for pi, p in enumerate(d.pages):
        sp = st.pages[pi]
        ctx.check(sp["num"] == p.num and close(sp["clip"], (0, 0, p.w, p.h)), "page box", lambda: "page %d: number %d, clip box %s" % (
            p.num, sp["num"], sp["clip"]))
        try:
            judge(ctx, p, sp, st, pairs)
        except Ambiguous:
            ctx.seen("ambiguous")
    ctx.sample("%d pages, %d paths, %d images" % (len(d.pages), sum(len(p.shapes) for p in d.pages), sum(len(p.images) for p in d.pages)))


def judge(ctx, p, sp, st, pairs):
    page = (0, 0, p.w, p.h)
    want = []   # (kind, clip, box or None, object)
    fuzzy = []  # images that are visible in part
    for pts, clip, how in p.shapes:
        c = clipbox(p, clip)
        # (All conditions are evaluated for each point, to detect ambiguous ones.)
        vis = [q for q in pts if all([inside(q[0], c[0], c[2]), inside(q[1], c[1], c[3])])]
        if not vis:
            ctx.seen("hidden-shape")
            continue
        if len(vis) < len(pts):
            ctx.seen("partly-hidden-shape")
        b = (min(q[0] for q in vis), min(q[1] for q in vis), max(q[0] for q in vis), max(q[1] for q in vis))
        if clip:
            ctx.seen("clipped-shape")
        for _ in range(PAINTS[how]):
            want.append(("shapes", c, b))
    for b, clip in p.images:
        c = clipbox(p, clip)
        fl = [inside(b[0], c[0], c[2]), inside(b[2], c[0], c[2]), inside(b[1], c[1], c[3]), inside(b[3], c[1], c[3])]
        if b[2] < c[0] or b[0] > c[2] or b[3] < c[1] or b[1] > c[3]:
            ctx.seen("hidden-graphic")
        elif all(fl):
            want.append(("graphics", c, b))
        else:
            fuzzy.append((c, b))
    clips = []
    for g, ch in pairs:
        if g.page is p:
            want.append(("characters", clipbox(p, g.clip), ch))
    for k, c, b in want + [("x", c, b) for c, b in fuzzy]:
        for e in clips:
            if same(c, e):
                break
        else:
            clips.append(c)
    got = {"shapes": {None: st.get(sp["shapes"])}, "graphics": {None: st.get(sp["graphics"])}, "characters": {None: st.get(sp["chars"])}}
    figs = st.get(sp["figures"])
    for f in figs:
        got["shapes"][f] = st.get(f.shapes)
        got["graphics"][f] = st.get(f.graphics)
        got["characters"][f] = st.get(f.chars)
        ctx.check(f.page == p.num and f.doc == 1, "figure", lambda: "%s is on page %d" % (f, p.num))
        els = got["shapes"][f] + got["graphics"][f] + got["characters"][f]
        if not ctx.check(els, "figure", lambda: "%s has no elements" % f):
            continue
        u = (min(e.x0 for e in els), min(e.y0 for e in els), max(e.x1 for e in els), max(e.y1 for e in els))
        ctx.check(max(abs(a - b) for a, b in zip(u, f.box())) < 1e-6, "figure box", lambda: "%s has the elements %s" % (f, els))
        ctx.check(not close(f.clip, page), "figure clip", lambda: "%s is clipped by the page only" % f)
        for o in figs:
            if o is not f:
                ctx.check(not close(o.clip, f.clip), "figure twice", lambda: "two figures %s, %s with the clip box %s" % (o, f, f.clip))
        ctx.seen("figure")
        if sum(bool(got[k][f]) for k in got) > 1:
            ctx.seen("mixed-figure")
        for k, t in (("shapes", "shape-in-figure"), ("graphics", "graphic-in-figure"), ("characters", "glyph-in-figure")):
            if got[k][f]:
                ctx.seen(t)
        ctx.ok(("figure", f.clip, f.box()))

    def place(c):
        """The figure for a clip box (None: the page)."""
        if same(c, page):
            return None
        return next((f for f in figs if close(f.clip, c)), "none")
    for k in ("shapes", "graphics"):
        left = {f: list(v) for f, v in got[k].items()}
        for kk, c, b in want:
            if kk != k:
                continue
            f = place(c)
            hit = next((e for e in left.get(f, []) if close(e.box(), b)), None)
            if not ctx.check(hit is not None, k, lambda: "page %d: the %s %s (clip box %s) was not extracted (or not there); extracted there: %s" % (
                    p.num, k[:-1], b, c, got[k].get(f))):
                continue
            left[f].remove(hit)
            ctx.check(hit.page == p.num and hit.doc == 1, k, lambda: "%s is on page %d" % (hit, p.num))
            ctx.seen(k[:-1])
            ctx.ok((k, b, c))
        if k == "graphics":
            for c, b in fuzzy:
                f = place(c)
                hit = next((e for e in left.get(f, []) if e.x0 >= c[0] - EPS and e.y0 >= c[1] - EPS and e.x1 <= c[2] + EPS and e.y1 <= c[3] + EPS
                            and e.x0 >= b[0] - EPS and e.y0 >= b[1] - EPS and e.x1 <= b[2] + EPS and e.y1 <= b[3] + EPS), None)
                if hit:
                    left[f].remove(hit)
                    ctx.seen("partly-hidden-graphic")
        for f, v in left.items():
            for e in v:
                ctx.fail(k, "page %d: nothing was painted for the extracted %s (in %s)" % (p.num, e, f or "the page"))
    for kk, c, ch in want:
        if kk == "characters":
            f = place(c)
            ctx.check(ch in got[kk].get(f, []), "characters", lambda: "%s (clip box %s) is not in %s" % (ch, c, f or "the page"))
    every = [e for k in got for v in got[k].values() for e in v]
    ctx.check(len(every) == len({e.oid for e in every}), "twice", lambda: "page %d: an element is stored twice" % p.num)
    ranks = [e.rank for e in st.chars.values()] + [e.rank for e in st.shapes.values()] + [e.rank for e in st.graphics.values()]
    ctx.check(len(set(ranks)) == len(ranks), "rank", "two elements have the same rank")
    if p.rotate:
        ctx.seen("rotated-page")
    used = [c for k, c, b in want]
    if len(used) > len({tuple(c) for c in used}):
        ctx.seen("same-clip-twice")
