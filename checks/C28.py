"""Metamorphic relations: documents that only differ by the position or the turn of what is drawn, or by how the file is written, give corresponding results."""
import json, re
import chaos, layout, pdfgen
from checks import C18
from layout import VOCAB
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 120, "thorough": 4000}
RULE = "one pair of documents that are related by a transformation; distinct: by the transformation and the document"
MUST_SEE = ["moved contents", "moved origin", "rotation entry 90", "rotation entry 180", "rotation entry 270", "turned by 90", "turned by 180", "turned by 270", "turned scripts", "same segments", "order of objects", "compressed", "contents in pieces",
            "saved states", "several columns", "scripts", "figures", "diacritics", "hyphens", "lines with scripts", "blocks", "reading order cuts", "segments"]
ASSUMPTIONS = ["for moved and turned contents, documents are used in which all coordinates are multiples of 0.5, so that all calculations are exact and rounding decides nothing"]
FLOAT = 1e-6


class Sheet:
    """An abstract page: items at positions (u, v) of a sheet of size w x h, all multiples of 0.5."""

    def __init__(self, r):
        self.r, self.w, self.h, self.items = r, r.choice([400, 500, 612]), r.choice([500, 600, 792]), []
        W = {c: r.choice([400, 450, 500, 500, 550, 600]) for c in "abcdefghijklmnopqrstuvwxyz"}
        W.update({c: 250 for c in "il.,-"})
        self.body = Font(b"CMR10", width=500, widths=W)
        self.bold = Font(b"CMBX10", width=550, weight=700)
        self.italic = Font(b"CMTI10", width=500, flags=96, italic_angle=-14)

    def text(self, words, u, v, font=None, fs=10, gap=2.5):
        font = font or self.body
        self.items.append(("text", [list(x) for x in words], u, v, font, fs, gap))
        return u + sum(font.width(c) * fs / 1000 for w in words for c in w) + gap * (len(words) - 1)

    def words(self, u, u1, font=None, fs=10, gap=2.5):
        font = font or self.body
        out, x = [], u
        while True:
            w = self.r.choice(VOCAB)
            ww = sum(font.width(c) for c in w) * fs / 1000
            if x + ww > u1 and out:
                return out
            out.append(w)
            x += ww + gap

    def paragraph(self, u0, u1, v, n, fs=10, font=None, indent=0, lead=12, hyphens=True):
        r = self.r
        for i in range(n):
            u = u0 + (indent if i == 0 else 0)
            ws = self.words(u, u1 if i < n - 1 else (u0 + u1) / 2, font, fs)
            if hyphens and i < n - 1 and r.random() < .2:
                ws[-1] = ws[-1][:max(2, len(ws[-1]) // 2)] + "-"
            end = self.text(ws, u, v, font, fs)
            if r.random() < .15:
                self.text(["2"], end, v - .4 * fs, font, fs / 2)
            elif r.random() < .1:
                self.text(["x"], end, v + .2 * fs, font, fs / 2)
            v += lead * fs / 10
        return v

    def fill(self):
        r = self.r
        m = 50
        v = m + 20
        if r.random() < .5:
            self.text(["Large", "title"], m + r.choice([0, 60, 100]), v, self.bold, 20)
            v += 40
        ncols = r.choice([1, 1, 2, 2, 3])
        cw = (self.w - 2 * m - 20 * (ncols - 1)) // ncols
        self.ncols = ncols
        for c in range(ncols):
            u, y = m + c * (cw + 20), v
            while y < self.h - m - 60:
                k = r.random()
                if k < .5:
                    y = self.paragraph(u, u + cw, y, r.randint(2, 6), indent=r.choice([0, 0, 10]))
                elif k < .6:
                    self.text(["1", "heading"], u, y + 8, self.bold, 10)
                    y += 26
                elif k < .68:
                    y = self.paragraph(u, u + cw, y + 10, 2, fs=20)
                elif k < .78:
                    for i in range(r.randint(2, 4)):
                        self.text(["•"], u, y)
                        self.text(self.words(u + 12, u + cw), u + 12, y)
                        y += 12
                elif k < .84:
                    self.items.append(("image", u + 10, y, u + cw - 20, y + 50))
                    y += 70
                elif k < .9:
                    self.items.append(("figure", u, y, u + cw, y + 60, r.randint(1, 4)))
                    y += 80
                elif k < .94:
                    self.items.append(("line", u, y, u + cw, y))
                    y += 14
                else:
                    self.text(["e\u0301", "a", "\u00e4o"], u, y)
                    self.items.append(("mark", u + 40, y))
                    self.text(self.words(u + 60, u + cw), u + 60, y, self.italic)
                    y += 12
                y += r.choice([0, 6, 12])
        # Twice as large, so that all coordinates of small characters are multiples of 0.5, too.
        two = lambda x: x * 2 if isinstance(x, (int, float)) else x
        self.items = [(i[0],) + tuple(two(x) for x in i[1:]) if i[0] != "figure" else ("figure",) + tuple(two(x) for x in i[1:5]) + i[5:] for i in self.items]
        self.w, self.h = 2 * self.w, 2 * self.h
        return self

    def dev(self, rot, u, v):
        w, h = self.w, self.h
        return {0: (u, v), 1: (h - v, u), 2: (w - u, h - v), 3: (v, w - u)}[rot]

    def turn(self, rot, box):
        a, b = self.dev(rot, box[0], box[1]), self.dev(rot, box[2], box[3])
        return (min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1]))

    def render(self, d, rot=0, dx=0, dy=0, margin=0, **k):
        """margin: how much larger the page is than the sheet in each direction."""
        w, h = (self.w, self.h) if rot % 2 == 0 else (self.h, self.w)
        p = d.page(w=w + margin, h=h + margin, **k)
        at = lambda u, v: tuple(a + b for a, b in zip(self.dev(rot, u, v), (dx, dy)))

        def box(*b):
            x = self.turn(rot, b)
            return x[0] + dx, x[1] + dy, x[2] + dx, x[3] + dy
        for it in self.items:
            if it[0] == "text":
                x, y = at(it[2], it[3])
                p.text_run(it[1], x, y, it[4], it[5], rot=rot, wordgap=it[6])
            elif it[0] == "mark":
                x, y = at(it[1], it[2])
                p.glyph("o", x, y, self.body, 20, rot)
                p.glyph("\u0308", x, y, self.body, 20, rot)
                x, y = at(it[1] + 10, it[2])
                p.glyph("n", x, y, self.body, 20, rot)
            elif it[0] == "image":
                p.image(*box(*it[1:5]))
            elif it[0] == "line":
                p.path([at(it[1], it[2]), at(it[3], it[4])])
            else:
                p.push_clip(*box(*it[1:5]))
                for i in range(it[5]):
                    p.path([at(it[1] + 20 * i + 10, it[2] + 20), at(it[1] + 20 * i + 16, it[4] - 20)])
                    x, y = at(it[1] + 20 * i + 10, it[4] - 20)
                    p.glyph("a", x, y, self.body, 20, rot)
                p.pop()
        return p


def raw(path):
    out = {}
    with open(path) as f:
        for line in f:
            d = json.loads(line)
            out[d.pop("stage")] = d
    return out


def shifted(kind, f, v, o, dx, dy):
    """The value of a field after a displacement."""
    big = lambda x: isinstance(x, (int, float)) and abs(x) > 1e300
    if kind == "cuts" and f == "pos":
        return v  # an index
    if f == "pos":
        return [v[0], v[1] + dx, v[2] + dy, v[3] + dx, v[4] + dy, v[5], v[6]] if v[0] != -1 else v
    if f in ("bbb", "trim", "clip", "p") and not all(big(x) for x in v):
        return [v[0] + dx, v[1] + dy, v[2] + dx, v[3] + dy]
    if f == "base" and kind != "words" and not big(v):
        rot = o["pos"][5]
        return v + (dx if rot in (1, 3) else dy) if o["pos"][0] != -1 else v
    return v


def differ(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and (a == b or abs(a - b) <= FLOAT))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) != len(b) or any(differ(x, y) for x, y in zip(a, b))
    return a != b


def compare(ctx, what, a, b, dx=0, dy=0, stages=None, skip=()):
    """The recorded stages of b must be those of a, displaced."""
    for s in a:
        if s == "exit":
            continue
        x, y = a[s], b.get(s)
        if not ctx.check(y is not None, "stages", lambda: "%s: no stage %s" % (what, s)):
            return
        for kind in ("stats", "fonts"):
            if kind not in skip:
                ctx.check(x[kind] == y[kind], "%s" % kind, lambda: "%s: stage %s: %s / %s" % (what, s, x[kind], y[kind]))
        for kind in ("chars", "words", "lines", "blocks", "figures", "shapes", "graphics", "segments"):
            if not ctx.check(len(x[kind]) == len(y[kind]), kind, lambda: "%s: stage %s: %d %s instead of %d" % (what, s, len(y[kind]), kind, len(x[kind]))):
                return
            for o, u in x[kind].items():
                v = y[kind].get(o)
                for f, w in u.items():
                    if f == "id" or (kind, f) in skip:
                        continue
                    e = shifted(kind, f, w, u, dx, dy)
                    if v is None or differ(e, v[f]):
                        ctx.fail("%s.%s" % (kind, f), "%s: stage %s: %s of %s %r: %r instead of %r" % (what, s, f, kind, u.get("text", o), v and v[f], e))
                        return
        for p, q in zip(x["pages"], y["pages"]):
            for f, w in p.items():
                if f in ("w", "h", "clip"):
                    continue
                if f in ("bcuts", "rcuts"):
                    for c, e in zip(w, q[f]):
                        for g, z in c.items():
                            if g != "id" and differ(shifted("cuts", g, z, c, dx, dy), e[g]):
                                ctx.fail("cuts.%s" % g, "%s: stage %s: %s: %s / %s" % (what, s, f, c, e))
                                return
                    ctx.check(len(w) == len(q[f]), "cuts", lambda: "%s: stage %s: %d cuts instead of %d" % (what, s, len(q[f]), len(w)))
                elif differ(w, q[f]):
                    ctx.fail("pages.%s" % f, "%s: stage %s: %s of page %s: %s / %s" % (what, s, f, p["num"], str(w)[:300], str(q[f])[:300]))
                    return


def run(ctx, data, name, skip="roles", env=None):
    f = ctx.write(name + ".pdf", data)
    ev = ctx.path(name + ".ev")
    rc, out, err = ctx.run([ctx.bins["rec"], f, ev, "--stages=all", "--fresh"] + (["--skip=" + skip] if skip else []), env=env)
    if rc != 0:
        ctx.crash(rc, err)
        return None
    return raw(ev)


class Shuffled(pdfgen.Writer):
    """Writes the objects in another order, with other numbers."""

    def __init__(self, r):
        super().__init__()
        self.r = r

    def output(self, root, extra_trailer=b""):
        n = len(self.objs)
        perm = list(range(1, n))
        self.r.shuffle(perm)
        m = {i + 1: perm[i] for i in range(n - 1)}
        sub = lambda b: re.sub(rb"(?<![\d.])(\d+) 0 R\b", lambda x: b"%d 0 R" % m[int(x.group(1))], b)
        objs = [None] * n
        for i in range(1, n):
            o = self.objs[i]
            if o is not None:
                k = o.find(b"stream\n")
                o = sub(o) if k < 0 else sub(o[:k]) + o[k:]
            objs[m[i]] = o
        order = list(range(1, n))
        self.r.shuffle(order)
        out = bytearray(b"%PDF-1.5\n%\xe2\xe3\xcf\xd3\n")
        offs = {}
        for i in order:
            offs[i] = len(out)
            out += b"%d 0 obj\n" % i + (objs[i] if objs[i] is not None else b"null") + b"\nendobj\n"
            if self.r.random() < .2:
                out += b"% a comment\n"
        xref = len(out)
        out += b"xref\n0 %d\n0000000000 65535 f \n" % n
        for i in range(1, n):
            out += b"%010d 00000 n \n" % offs[i]
        out += b"trailer\n<< /Size %d /Root %d 0 R %s >>\nstartxref\n%d\n%%%%EOF\n" % (n, m[root], extra_trailer, xref)
        return bytes(out)


def build(doc, writer=None):
    old = pdfgen.Writer
    if writer:
        pdfgen.Writer = lambda: writer
    try:
        return doc.build()
    finally:
        pdfgen.Writer = old


def files(ctx):
    """The same pages, written differently."""
    r = ctx.rng
    doc = C18.generate(r, r.randint(0, 8))
    for f in doc.fonts:
        f.t3name = True
    env = {"PPP_STUB_MODEL": "hash", "PPP_STUB_SEED": str(ctx.idx)}
    a = run(ctx, build(doc), "a", skip=None, env=env)
    if a is None:
        return
    how = ["order of objects", "compressed", "contents in pieces", "saved states"][ctx.idx // 3 % 4]
    writer = None
    if how == "order of objects":
        writer = Shuffled(r)
    elif how == "compressed":
        doc.compress = not doc.compress
    elif how == "contents in pieces":
        doc.pieces = r.choice([2, 3, 10])
    else:
        for p in doc.pages:
            if p.raw_contents is None and not p.broken:
                # What is saved and restored without being changed, comments and additional white space.
                ops = []
                for o in p.ops:
                    if r.random() < .2:
                        ops.append(r.choice([b"q Q", b"q 1 0 0 1 0 0 cm Q", b"% a comment", b"\n\t  ", b"q q Q Q", b"/Artifact BMC EMC", b"0 Tr", b"q 0.5 g 7 w Q"]))
                    ops.append(o)
                p.ops = ops
    data = build(doc, writer)
    b = run(ctx, data, "b", skip=None, env=env)
    if b is None:
        return
    compare(ctx, how, a, b)
    ctx.seen(how)
    ctx.ok((how, ctx.idx))
    ctx.sample("%s: %d characters, %d words" % (how, len(a["final"]["chars"]), len(a["final"]["words"])))


def observe(ctx, a, sheets):
    f = a["final"]
    ctx.seen("several columns", sum(s.ncols > 1 for s in sheets))
    ctx.seen("scripts", sum(c["sub"] or c["sup"] for c in f["chars"].values()))
    ctx.seen("figures", len(f["figures"]))
    ctx.seen("diacritics", sum(bool(c["markOf"]) for c in f["chars"].values()))
    ctx.seen("hyphens", sum(bool(w["hyphFirst"]) for w in f["words"].values()))
    ctx.seen("blocks", sum(len(p["blocks"]) for p in f["pages"]))
    ctx.seen("segments", len(f["segments"]))
    ctx.seen("reading order cuts", sum(len(p["rcuts"]) for p in f["pages"]))
    ctx.seen("lines with scripts", len({w["line"] for w in f["words"].values() if any(f["chars"][str(c)]["sup"] for c in w["chars"])}))


def case(ctx):
    r = ctx.rng
    k = ctx.idx % 3
    if k == 0:
        return files(ctx)
    sheets = [Sheet(r).fill() for _ in range(r.choice([1, 1, 2]))]
    d = Doc()
    for s in sheets:
        s.render(d, margin=0 if k == 2 else 40)
    a = run(ctx, d.build(), "a")
    if a is None:
        return
    observe(ctx, a, sheets)
    if k == 1:
        # Moved contents, another origin, another rotation entry with contents that look the same.
        dx, dy = r.choice([(0, 0), (r.randint(0, 40), r.randint(0, 40))])
        origin = r.choice([(0, 0), (r.randint(-500, 500), r.randint(-500, 500))])
        rotate = [0, 90, 180, 270][ctx.idx // 3 % 4]
        e = Doc()
        for s in sheets:
            s.render(e, dx=dx, dy=dy, margin=40, origin=origin, rotate=rotate)
        what = "moved by (%d, %d), origin at %s, rotation entry %d" % (dx, dy, origin, rotate)
        b = run(ctx, e.build(), "b")
        if b is None:
            return
        compare(ctx, what, a, b, dx, dy)
        ctx.seen("moved contents", (dx, dy) != (0, 0))
        ctx.seen("moved origin", origin != (0, 0))
        ctx.seen("rotation entry %d" % rotate, rotate)
    else:
        rot = ctx.idx // 3 % 3 + 1
        e = Doc()
        for s in sheets:
            s.render(e, rot=rot)
        what = "turned by %d" % (90 * rot)
        b = run(ctx, e.build(), "b")
        if b is None:
            return
        ctx.seen(what)
        turned(ctx, what, a["final"], b["final"], sheets, rot)
    ctx.ok((what, ctx.idx))
    ctx.sample("%s: %d characters, %d words, %d lines" % (what, len(a["final"]["chars"]), len(a["final"]["words"]), len(a["final"]["lines"])))


def turned(ctx, what, x, y, sheets, rot):
    for n, (p, q) in enumerate(zip(x["pages"], y["pages"])):
        s = sheets[n]
        for kind in ("chars", "words", "shapes", "graphics", "figures"):
            u, v = [x[kind][str(o)] for o in p[kind]], [y[kind][str(o)] for o in q[kind]]
            if not ctx.check(len(u) == len(v), "turned " + kind, lambda: "%s: page %d: %d %s instead of %d: %s / %s" % (
                    what, n + 1, len(v), kind, len(u), [a.get("text") for a in u][:200], [a.get("text") for a in v][:200])):
                return
            for a, b in zip(u, v):
                e = s.turn(rot, a["pos"][1:5])
                ctx.check(not differ(list(e), b["pos"][1:5]), "turned box of " + kind, lambda: "%s: page %d: %s %r at %s instead of %s" % (what, n + 1, kind, a.get("text"), b["pos"][1:5], e))
                if kind in ("chars", "words"):
                    ctx.check(b["pos"][5] == rot and a["pos"][5] == 0, "turned rotation", lambda: "%s: rotation %s" % (what, b["pos"][5]))
                    for f in ("text", "fs", "font") + (("dtext",) if kind == "chars" else ()):
                        ctx.check(a[f] == b[f], "turned %s.%s" % (kind, f), lambda: "%s: page %d: %s of %r: %r instead of %r" % (what, n + 1, f, a["text"], b[f], a[f]))
        # Lines, as sets of words.
        iu, iv = {o: i for i, o in enumerate(p["words"])}, {o: i for i, o in enumerate(q["words"])}
        # Turned pages may be cut into other segments, since cuts in one direction are preferred; lines are compared where the segments agree.
        parts = [{frozenset(ix.get(w, -1) for w in z["segments"][str(g)]["elements"] if str(w) in z["words"]): g for g in page["segments"]} for z, page, ix in ((x, p, iu), (y, q, iv))]
        both = [g for g in parts[0] if g in parts[1]]
        ctx.seen("same segments", len(both))
        lines = []
        for z, page, ix in ((x, p, iu), (y, q, iv)):
            lines.append(sorted(tuple(ix.get(w, -1) for w in z["lines"][str(l)]["words"]) for g in both for l in z["segments"][str(parts[len(lines)][g])]["lines"]))
        w = [a["text"] for a in (x["words"][str(o)] for o in p["words"])]
        say = lambda ls: [" ".join(w[i] for i in l) for l in ls]
        ctx.check(lines[0] == lines[1], "turned lines", lambda: "%s: page %d: lines %s instead of %s" % (
            what, n + 1, say([l for l in lines[1] if l not in lines[0]]), say([l for l in lines[0] if l not in lines[1]])))
        # Scripts, in the lines that are the same.
        if lines[0] == lines[1]:
            for i in {i for l in lines[0] for i in l if i >= 0}:
                for c, e in zip(*([z["chars"][str(k)] for k in z["words"][str(page["words"][i])]["chars"]] for z, page in ((x, p), (y, q)))):
                    ctx.check((c["sub"], c["sup"]) == (e["sub"], e["sup"]), "turned scripts", lambda: "%s: page %d: %r is (sub, sup) %s instead of %s" % (
                        what, n + 1, c["text"], (e["sub"], e["sup"]), (c["sub"], c["sup"])))
                    ctx.seen("turned scripts", c["sub"] or c["sup"])
