"""Text blocks: the lines of a segment are split into blocks by direction, distance, size, labels, centering, emphasis and indentation."""
import re

import layout, ref
from pdfgen import Doc, Font
from ref import eq, gt, lt, ge, le

PROGRAMS = ["rec"]
N = {"quick": 420, "thorough": 16000}
RULE = "one text block that was extracted, with its lines; distinct: by text and box"
MUST_SEE = ["paragraph", "pre: first line", "pre: other size", "pre: large distance", "pre: no distance", "pre: increased distance", "pre: same figure",
            "pre: default", "centered: item", "centered", "item: first line", "item: capacity", "item: below first line", "item: next continuation", "item: offset",
            "item: sentence goes on", "item: ended, capacity", "emphasized", "hanging: not indented", "hanging: capacity", "hanging: indented", "hanging: more, begins", "hanging: both more", "hanging: previous more, begins", "hanging: previous more, goes on",
            "indent: more", "indent: more, same", "indent: previous more", "indent: indented", "indent: capacity", "default", "footnote label", "superscript label", "block: hanging",
            "block: centered", "block: emphasized by size", "block: emphasized by weight", "block: emphasized by italics", "block: emphasized by capitals", "two-line margins", "formula"]
LABELS = [re.compile(p, f) for p, f in (
    (rb"\A(\xe2\x80\xa2|-|\xe2\x80\x93|\+)\s+", 0), (rb"\A(X?(IX|IV|V?I{0,3}))\.\s+", re.I), (rb"\A\((X?(IX|IV|V?I{0,3}))\)\s+", re.I), (rb"\A[a-z]\.\s+", 0),
    (rb"\A[0-9]+\.\s+", 0), (rb"\A[(\[][a-z0-9][0-9]{0,2}[)\]]\s+", re.I), (rb"\A\[[A-Z][a-zA-Z0-9]{0,5}\]\s+", 0), (rb"\A[a-z0-9][0-9]?\)\s+", re.I),
    (rb"\APACS\s+", re.I))]
SUPER = "*∗abcdefghijklmnopqrstuvwxyz01234567890()".encode()
SPECIAL = "*∗†‡§‖¶?".encode()


class Unsure(Exception):
    """The result depends on a tie."""


def near(*ts):
    """Raises Unsure if a difference is (nearly) at a threshold; differences that are computed exactly are no ties."""
    for d, t in ts:
        if abs(d - t) < 1e-8 and not (float(d * 1024).is_integer() and float(t * 1024).is_integer()):
            raise Unsure()


def cmp_(f, a, b, t=ref.TOL):
    near((abs(a - b), t))
    return f(a, b, t)


def enc(s):
    return s.encode("utf-8", "surrogateescape")


class Model:
    def __init__(self, st, seen):
        self.st, self.seen = st, seen
        s = st.stats
        self.aw, self.fs, self.fn = s["avgCharWidth"], s["mostFreqFontSize"], s["mostFreqFontName"]
        self.wh, self.ld, self.per = s["mostFreqWordHeight"], s["mostFreqLineDistance"], dict(s["lineDistPerFs"])
        self.prev = {o: l.prev for o, l in st.lines.items()}
        self.lm, self.rm = {}, {}
        self.labels, self.labels2 = set(), set()
        self.trim = {}

    # --- lines ---
    def line(self, o):
        return self.st.all[o] if o else None

    def words(self, l):
        return self.st.get(l.words)

    def chars(self, w):
        return self.st.get(w.chars)

    def prefixed(self, l):
        ws = self.words(l)
        if not ws:
            return False
        cs = self.chars(ws[0])
        if not cs:
            return False
        if cs[0].sup and enc(cs[0].text) in SUPER:
            self.seen("superscript label")
            return True
        return any(p.search(enc(l.text)) for p in LABELS)

    def footnote(self, l, labels):
        ws = self.words(l)
        if not ws:
            return False
        s = b""
        for c in self.chars(ws[0]):
            if not c.sup:
                break
            s += enc(c.text)
        if labels:
            a, b = s in self.labels, s in self.labels2
            if a != b:
                raise Unsure()
            self.seen("footnote label", a)
            return a
        return bool(s)

    def collect(self, l):
        for w in self.words(l):
            for alpha, out in ((lambda t: t[:1] in SPECIAL, self.labels), (lambda t: t.decode("utf-8", "replace") in SPECIAL.decode(), self.labels2)):
                label, base = b"", False
                for c in self.chars(w):
                    t = enc(c.text)
                    if not base:
                        if not c.sub and not c.sup:
                            base = True
                        continue
                    if not t:
                        continue
                    if alpha(t) or c.sup and t[:1].isalnum():
                        label += t
                        continue
                    if label:
                        out.add(label)
                        label = b""
                if label:
                    out.add(label)

    def first(self, l, labels=True):
        if not l.words:
            return False
        foot = self.footnote(l, labels)
        if not self.prefixed(l) and not foot:
            return False
        p = self.line(self.prev[l.oid])
        if p and not self.prefixed(p) and p.font == l.font and cmp_(eq, p.fs, l.fs, 1.0):
            near((ref.vgap(p, l), 1e-4))
            if le(ref.vgap(p, l), 0) and not self.sentence(p) and cmp_(eq, p.x0, l.x0, self.aw):
                return False
        for o in (l.prevSib, l.nextSib):
            s = self.line(o)
            if s and s.words:
                a, b = self.words(s)[0], self.words(l)[0]
                if self.prefixed(s) and a.font == b.font and cmp_(eq, a.fs, b.fs, 1.0):
                    return True
        return foot

    def cont(self, l, labels=True):
        p = self.line(l.parent)
        return bool(p) and (self.first(p, labels) or self.cont(p, labels))

    def sentence(self, l):
        return enc(l.text)[-1:] in (b"?", b"!", b".", b")", b";")

    def capacity(self, p, l):
        if not p or not l.words:
            return False
        w = self.words(l)[0]
        return cmp_(gt, self.rm[p.oid], w.x1 - w.x0, 2 * self.aw)

    def emph(self, e, why=None):
        f, d = self.st.fonts.get(e.font), self.st.fonts.get(self.fn)
        if not f or not d:
            return False
        k = None
        if cmp_(gt, e.fs, self.fs, 1.0):
            k = "size"
        elif cmp_(ge, e.fs, self.fs, 1.0) and f["weight"] > d["weight"] + 100:
            k = "weight"
        elif cmp_(ge, e.fs, self.fs, 1.0) and f["italic"]:
            k = "italics"
        else:
            letters = [c for c in enc(e.text) if chr(c).isascii() and chr(c).isalpha()]
            if letters and not any(chr(c).islower() for c in letters):
                k = "capitals"
        if why:
            self.seen("block: emphasized by %s" % k, bool(k))
        return bool(k)

    def figure(self, l, figs):
        for f in figs:
            x, y = ref.ratios(l.x0, l.x1, f.x0, f.x1)[0], ref.ratios(l.y0, l.y1, f.y0, f.y1)[0]
            near((x, .5 - 1e-4), (y, .5 - 1e-4))
            if ge(x, .5) and ge(y, .5):
                return f
        return None

    # --- preliminary blocks ---
    def pre(self, p, l, figs):
        """Whether the line starts a preliminary block, and why."""
        if not p:
            return True, "pre: first line"
        f = self.figure(p, figs)
        if f and f is self.figure(l, figs):
            return False, "pre: same figure"
        if p.rot != l.rot or p.wmode != l.wmode:
            return True, "pre: other direction"
        if not cmp_(eq, p.fs, l.fs, 1.0) and not cmp_(eq, p.maxfs, l.maxfs, 1.0):
            return True, "pre: other size"
        exp = max(self.per.get(l.fs, 0), self.ld)
        d = self.dist(p, l)
        if le(d, 0):
            return False, "pre: no distance"
        if cmp_(gt, d, exp, max(1.0, .1 * exp)):
            return True, "pre: large distance"
        pp = self.line(self.prev[p.oid])
        if pp and cmp_(gt, d, self.dist(pp, p), .5 * self.wh):
            return True, "pre: increased distance"
        return False, "pre: default"

    def dist(self, p, l):
        d = ref.vgap(p, l)
        near((abs(d * 10 - int(d * 10)), .5))
        return ref.round_half_away(d, 1)

    # --- final blocks ---
    def starts(self, blk, l):
        p = self.line(self.prev[l.oid])
        if not p:
            return True, "first line of preliminary block"
        aw = self.aw
        if blk["centered"]:
            return (True, "centered: item") if self.first(l, False) else (False, "centered")
        off = p.x0 - l.x0
        near((off, -aw - 1e-4), (off, 6 * aw + 1e-4))
        inside = -aw - 1e-4 <= off <= 6 * aw + 1e-4
        cap = self.capacity(p, l)
        if self.first(l):
            return True, "item: first line"
        pf, pc = self.first(p), self.cont(p)
        if self.cont(l):
            if cap:
                return True, "item: capacity"
            if pf:
                return False, "item: below first line"
            if pc:
                return (False, "item: next continuation") if inside else (True, "item: offset")
            return False, "item: other"
        if pf or pc:
            if cap:
                return True, "item: ended, capacity"
            if not self.sentence(p) and not enc(l.text)[:1].isupper():
                return False, "item: sentence goes on"
        if self.emph(p) and self.emph(l) and p.font == l.font and cmp_(eq, p.fs, l.fs, 1.0):
            return False, "emphasized"
        h = blk["hang"]
        a, b = self.lm[p.oid], self.lm[l.oid]
        if h > 1e-4:
            near((abs(b - h), aw), (abs(a - h), aw))
            if b < h - aw:
                return True, "hanging: not indented"
            if b <= h + aw:
                if a > h + aw:
                    return (False, "hanging: previous more, goes on") if inside else (True, "hanging: previous more, begins")
                return (True, "hanging: capacity") if cap else (False, "hanging: indented")
            if a > h + aw:
                return (False, "hanging: both more") if inside else (True, "hanging: both more, begins")
            return True, "hanging: more, begins"
        near((a, 6 * aw + 1e-4), (b, 6 * aw + 1e-4), (b, aw - 1e-4), (abs(off), aw))
        if b > 6 * aw + 1e-4:
            return (False, "indent: more, same") if abs(off) <= aw else (True, "indent: more")
        if a > 6 * aw + 1e-4:
            return (False, "indent: previous more, same") if abs(off) <= aw else (True, "indent: previous more")
        if b >= aw - 1e-4:
            return True, "indent: indented"
        if cap:
            return True, "indent: capacity"
        return False, "default"

    # --- creation ---
    def create(self, lines, seg, prev):
        """The properties of a block of the lines; prev: the previous block (a dict), if any."""
        x0, y0, x1, y1 = ref.union(lines)
        t = (max(x0, seg.trim[0]), max(y0, seg.trim[1]), min(x1, seg.trim[2]), min(y1, seg.trim[3]))
        for a, l in zip([None] + lines, lines):
            self.prev[l.oid] = a.oid if a else 0
        right = t[2]
        if len(lines) == 2:
            near((abs((x0 - seg.x0) - (seg.x1 - x1)), self.aw))
            if abs((x0 - seg.x0) - (seg.x1 - x1)) > self.aw and prev:
                self.seen("two-line margins", prev["trim"][2] > right)
                right = max(right, prev["trim"][2])
        for l in lines:
            self.lm[l.oid], self.rm[l.oid] = l.x0 - t[0], right - l.x1
        b = dict(lines=lines, box=(x0, y0, x1, y1), trim=t, centered=self.centered(lines), margins=[(self.lm[l.oid], self.rm[l.oid]) for l in lines])
        b["hang"] = self.hang(lines)
        return b

    def centered(self, lines):
        wide, just = False, 0
        for p, l in zip(lines, lines[1:]):
            a, b, o = abs(p.x0 - l.x0), abs(p.x1 - l.x1), ref.xover(p, l)
            near((o, .99 - 1e-4), (abs(a - b), 2 * self.aw), (a, 2 * self.aw + 1e-4), (b, 2 * self.aw + 1e-4))
            if o < .99 - 1e-4 or abs(a - b) > 2 * self.aw:
                return False
            formula = any(c in x.text for c in "=+" for x in (p, l))
            self.seen("formula", formula)
            if not formula and max(a, b) > 2 * self.aw + 1e-4:
                wide = True
            else:
                just += 1
        return wide and just <= 5

    def hang(self, lines):
        aw = self.aw
        long_ = [l for l in lines if len(enc(l.text)) >= 3]
        for l in lines:
            near((self.lm[l.oid], aw - 1e-4), (self.lm[l.oid], aw + 1e-4), (self.lm[l.oid], aw))
        large = [self.lm[l.oid] for l in lines if self.lm[l.oid] >= aw - 1e-4]
        if not large:
            return 0.0
        if any(0 < abs(a - b) < 1e-6 for a, b in zip(sorted(large), sorted(large)[1:])):
            raise Unsure()
        m = max(set(large), key=large.count)
        near((large.count(m), .5 * len(large) + 1e-4))
        if large.count(m) <= .5 * len(large) + 1e-4:
            return 0.0
        nlni = nli = ni = ind = 0
        first_ind = cap = False
        rest = True
        for i, l in enumerate(lines):
            if l not in long_:
                continue
            a, b = self.lm[l.oid], self.rm[l.oid]
            near((abs(a - b), aw), (abs(a), aw), (abs(a - m), aw))
            if abs(a - b) <= aw and a > aw + 1e-4:
                continue
            non, yes = abs(a) <= aw, abs(a - m) <= aw
            t = enc(l.text)
            low = t[:1].islower()
            ni += non
            ind += yes
            nli += low and yes
            nlni += low and non and self.words(l)[0].text not in ("van", "von", "de")
            if i == 0:
                first_ind = yes
            if i == 1:
                cap = self.capacity(self.line(self.prev[l.oid]), l)
            if i > 0:
                rest = rest and yes
        if not ind or nlni > 0:
            return 0.0
        if not first_ind and not cap and rest:
            return m
        if ni >= 10:
            return m
        if len(long_) >= 4 and nli >= 1:
            return m
        return 0.0


def expected(st, seen):
    """Per page: (per segment: preliminary blocks, final blocks)."""
    m = Model(st, seen)
    pre = []
    for p in st.pages:
        figs = st.get(p["figures"])
        segs = []
        for s in st.get(p["segments"]):
            blocks, cur = [], []
            for l in st.get(s.lines):
                new, why = m.pre(m.line(m.prev[l.oid]), l, figs)
                seen(why)
                if new and cur:
                    blocks.append(m.create(cur, s, blocks[-1] if blocks else None))
                    cur = []
                cur.append(l)
            if cur:
                blocks.append(m.create(cur, s, blocks[-1] if blocks else None))
            segs.append((s, blocks))
        pre.append(segs)
    out = []
    for p, segs in zip(st.pages, pre):
        final = []
        for s, blocks in segs:
            for b in blocks:
                cur = []
                for l in b["lines"]:
                    m.collect(l)
                    new, why = m.starts(b, l)
                    seen(why)
                    if new and cur:
                        final.append(m.create(cur, s, final[-1] if final else None))
                        cur = []
                    cur.append(l)
                if cur:
                    final.append(m.create(cur, s, final[-1] if final else None))
        out.append(final)
    return pre, out, m


# --- documents ----------------------------------------------------------------------------------------------------------------
def structured(r):
    """Enumerations, footnotes, references, centered text, headings, and so on, below one another."""
    d = Doc()
    W, H = 460, r.choice([320, 420, 560])
    rot = r.choice([0] * 9 + [1, 2, 3])
    wid = layout.font_widths(r)
    reg = Font(b"NimbusRomNo9L-Regu", widths=wid)
    bold = Font(b"NimbusRomNo9L-Medi", widths=wid, weight=700, flags=32 + (1 << 18))
    ital = Font(b"NimbusRomNo9L-ReguItal", widths=wid, flags=96, italic_angle=-12)
    fs = r.choice([8, 9, 10, 11, 12])
    pitch = r.choice([1.15, 1.25, 1.35, 1.45, 1.55, 1.85])
    for _ in range(r.choice([1, 1, 1, 2])):
        p = d.page(w=W, h=H)
        L, R = 50, r.choice([300, 410])
        state = {"v": 50}

        def dev(u, v):
            return {0: (u, v), 1: (W - v, u), 2: (W - u, H - v), 3: (v, H - u)}[rot]

        wobble = r.choice([0, 0, 0, 0, .3, .5, .8]) * fs

        def put(ws, u, f=reg, s=fs, sup=None):
            if wobble and r.random() < .3:
                u += r.uniform(-.3, 1) * wobble
            if sup:
                x, y = dev(u, state["v"] - .35 * s)
                u += p.text_run([list(sup)], x, y, f, .65 * s, rot=rot)
            x, y = dev(u, state["v"])
            return p.text_run([list(w) for w in ws], x, y, f, s, rot=rot, wordgap=.28 * s)

        def wd(w, f=reg, s=fs):
            return sum(f.width(c) for c in w) * f.unit() * s

        def fill(u, end, f=reg, s=fs, pre=(), low=None):
            ws, x = list(pre), u + sum(wd(w, f, s) + .28 * s for w in pre)
            while True:
                w = r.choice(layout.VOCAB)
                if r.random() < .1:
                    w = w.capitalize()
                if r.random() < .06:
                    w += r.choice(",.;")
                if x + wd(w, f, s) > end:
                    return ws or [w]
                ws.append(w)
                x += wd(w, f, s) + .28 * s

        def nl(k=1.0):
            state["v"] += pitch * fs * k
        marks = []
        while state["v"] < H - 60:
            kind = r.choice(["para", "para", "para", "para", "enum", "enum", "enum", "refs", "hang", "hang", "center", "center", "head", "caps", "foot", "foot", "formula", "quote", "ragged", "two", "fig",
                             "grow", "short", "both", "mixdir", "inset", "inset", "step", "step", "tight"])
            n = r.randint(2, 6)
            if kind == "para":
                ind = r.choice([0, 0, 1, 1.5, 2])
                for i in range(n):
                    ws = fill(L + (ind * fs if i == 0 else 0), R if i < n - 1 else R - r.choice([0, 20, 90]))
                    if marks and r.random() < .2:
                        pass
                    u = put(ws, L + (ind * fs if i == 0 else 0))
                    if r.random() < .15:
                        k = r.choice("123ab*†§")
                        state["v"] -= .35 * fs
                        x, y = dev(L + (ind * fs if i == 0 else 0) + u, state["v"])
                        p.text_run([[k]], x, y, reg, .65 * fs, rot=rot)
                        state["v"] += .35 * fs
                        marks.append(k)
                    nl()
            elif kind == "enum":
                style = r.choice(["%d.", "(%d)", "[%d]", "%d)", "•", "-", "–", "+", "%c.", "(%c)", "%c)", "roman", "[Kor%d]", "PACS"])
                ind = r.choice([0, 1, 2])
                sub = r.choice([0, 1.2, 2, 2, 3])
                ragged = r.random() < .3
                labelfonts = [reg, bold] if r.random() < .25 else [reg]
                for i in range(r.randint(2, 4)):
                    if r.random() < (.1 if i else .5):
                        # A line in front of the item, maybe of another size.
                        s = fs + r.choice([0, 2, 2, 3])
                        put(fill(L + ind * fs, R, s=s), L + ind * fs, s=s)
                        nl(r.choice([1, 1, .9]))
                    lab = ("I. II. III. IV.".split())[i] if style == "roman" else style % (i + 1 if "%d" in style else 97 + i) if "%" in style else style
                    for j in range(r.choice([1, 2, 2, 3, 4])):
                        a = L + (ind + (sub if j else 0)) * fs + (r.choice([-1, 1, 8]) * fs if j > 1 and r.random() < .15 else 0)
                        e = R - (r.choice([0, 60, 100]) if ragged else 0)
                        ws = fill(a, e, pre=[lab] if j == 0 else ())
                        if r.random() < .3:
                            ws[-1] += r.choice(".;!?)")
                        lf = r.choice(labelfonts) if j == 0 else reg
                        if lf is not reg:
                            a += put(ws[:1], a, f=lf) + .28 * fs
                            ws = ws[1:] or ["x"]
                        put(ws, a)
                        nl()
                    nl(r.choice([0, 0, 0, .1, .3]))
                if r.random() < .5:
                    ws = fill(L, R)
                    if r.random() < .4:
                        ws[0] = ws[0].capitalize()
                    put(ws, L)
                    nl()
            elif kind in ("refs", "hang"):
                h = r.choice([1, 1.5, 2, 4])
                for i in range(r.randint(2, 12)):
                    more = r.random() < .12
                    few = r.random() < .5
                    for j in range(r.randint(1, 4)):
                        a = L + (h * fs if j else 0) + (r.choice([1, 2, 5]) * fs if j and more and (j == 1 or not few) else 0)
                        ws = fill(a, R - (r.choice([0, 0, 80]) if j else 0))
                        if j == 0:
                            ws[0] = ws[0].capitalize() if r.random() < .93 else r.choice(["van", "von", "de", "and"])
                        put(ws, a)
                        nl()
            elif kind == "center":
                lab = r.random() < .3
                for i in range(n):
                    ws = fill(0, r.uniform(.2, .9) * (R - L), pre=["(%d)" % i] if lab and r.random() < .5 else ())
                    if r.random() < .2:
                        ws.insert(1, "=")
                    if lab and r.random() < .3:
                        ws = ws[:1]
                    w = sum(wd(x) for x in ws) + (len(ws) - 1) * .28 * fs
                    put(ws, (L + R) / 2 - w / 2, sup=r.choice("*a1") if lab and i and r.random() < .7 else None)
                    nl()
            elif kind in ("head", "caps"):
                f = r.choice([reg, bold, bold, ital])
                s = fs + r.choice([0, 0, 2, 4])
                for i in range(r.choice([1, 2, 2, 3])):
                    ws = fill(L, r.choice([R, R - 60]), f, s)
                    if kind == "caps":
                        ws = [w.upper() for w in ws]
                    put(ws, L + (r.choice([0, 0, 1.5]) * fs), f, s)
                    nl(s / fs)
                nl(r.choice([0, 0, .5]))
            elif kind == "foot":
                s = fs * r.choice([1, .85])
                for k in r.sample("123ab*†§(", r.choice([1, 2, 3])) + r.sample(marks, min(len(marks), 2)):
                    for j in range(r.choice([1, 2, 3])):
                        put(fill(L, R - r.choice([0, 0, 80]), s=s), L + (r.choice([0, 1]) * fs if j else 0), s=s, sup=k if j == 0 else None)
                        nl(s / fs)
            elif kind == "formula":
                put(["x", "=", "y", "+", "2"], (L + R) / 2 - 25)
                nl()
                put(fill(L, R), L)
                nl()
            elif kind == "quote":
                for i in range(n):
                    put(fill(L + 8 * fs, R - 4 * fs), L + 8 * fs)
                    nl()
                put(fill(L, R), L)
                nl()
            elif kind == "ragged":
                for i in range(n):
                    a = L + r.choice([0, 0, .3, .6, 1, 3, 5, 8]) * fs
                    put(fill(a, R - r.choice([0, 10, 30, 60, 120])), a)
                    nl()
            elif kind == "two":
                for i in range(2):
                    put(fill(L, R - r.choice([0, 100])), L + r.choice([0, 1.2]) * fs)
                    nl()
                nl(r.choice([.3, .7, 1]))
            elif kind == "fig" and rot == 0:
                v = state["v"]
                p.image(L, v, R, v + 60)
                for i in range(3):
                    state["v"] += 14 if i else 10
                    put(fill(L + 10, R - 100, s=r.choice([fs, fs - 3])), L + r.choice([10, 40]))
                state["v"] = v + 60 + 1.5 * fs
            elif kind == "grow":
                for i in range(n):
                    put(fill(L, R), L)
                    nl(r.choice([1, 1, 1.2, 1.4, 1.6]))
            elif kind == "step":
                for i in range(n):
                    put(fill(L, R), L)
                    nl(1.28 / pitch if i < n - 2 else r.choice([1.4, 1.7, 1.9]) / pitch)
            elif kind == "tight":
                # Lines that overlap each other, and lines that almost do.
                for i in range(n + 2):
                    put(fill(L, R), L)
                    nl(r.choice([.95, 1.1, 1.32, 1.36, 1.4, 1.5, 1.6, pitch, pitch]) / pitch)
            elif kind == "short":
                for i in range(n):
                    put([r.choice(["a", "ab", "xyz", "so", "Word"])], L + r.choice([0, 1, 2]) * fs)
                    nl()
            elif kind == "both":
                put(fill(L, R), L)
                nl()
                put(fill(L, R, s=fs + 2), L, s=fs + r.choice([2, 3]))
                nl()
            elif kind == "mixdir" and rot == 0:
                # Text of another direction directly below, so that there is no gap to cut the page at.
                put(fill(L, R), L)
                for i in range(4):
                    p.text_run([list(r.choice(layout.VOCAB)[:4])], L + 30 + 1.2 * fs * i, state["v"] + .45 * fs, reg, fs, rot=1)
                nl(3.5 / pitch)
            elif kind == "inset" and rot == 0:
                # Turned text in the midst of the lines, with no gap around it.
                n = r.randint(2, 4)
                v = state["v"]
                for i in range(n):
                    u = put(fill(L, R), L)
                    nl()
                turn = r.choice([1, 3])
                x = L + r.uniform(60, 150)
                for i in range(r.choice([1, 2])):
                    p.text_run([list(r.choice(layout.VOCAB))[:4]], x + 1.1 * fs * i, v - .7 * fs if turn == 1 else v + (n - 1) * pitch * fs, reg, fs, rot=turn)
            nl(r.choice([0, 0, 0, .1, .3, .5, .8, 1, 2]))
        if r.random() < .2:
            for i in range(3):
                p.text_run([list(r.choice(layout.VOCAB))], 430 + 10 * i, 300, reg, fs, rot=1)
    return d


def paragraphs(r):
    """Paragraphs that are set apart by distance or size; the expected blocks are known."""
    a = layout.Article.__new__(layout.Article)
    a.justify = True
    a.__init__(r, ncols=1, size=(r.choice([420, 595]), r.choice([500, 640])), indent=0, hyphens=.1, headings=r.random() < .5, pages=r.choice([1, 1, 2]))
    return a


def case(ctx):
    r = ctx.rng
    art = None
    k = ctx.idx % 5
    if k == 0:
        doc = layout.anydoc(r)
    elif k == 1:
        art = paragraphs(r)
        doc = art.doc
    else:
        doc = structured(r)
    sts, status = ctx.rec(doc, stages="line-stats,blocks")
    if status:
        return
    before, st = sts["line-stats"], sts["blocks"]
    if art:
        got = [[st.all[l].text for l in b.lines] for p in st.pages for b in st.get(p["blocks"])]
        exp = [[" ".join(l) for l in q.lines] for q in art.paras]
        ctx.seen("paragraph", len(exp))
        ctx.check(got == exp, "paragraphs", lambda: "drawn paragraph, then extracted block: %s" % (next(((a, b) for a, b in zip(exp, got) if a != b), (len(exp), len(got))),))
        ctx.sample("paragraph of %d lines: %s" % (len(got[0]), got[0][:1]))
    tags = []
    try:
        pre, fin, m = expected(before, lambda t, n=1: tags.append((t, n)))
    except Unsure:
        ctx.seen("skipped: not determined")
        return structure(ctx, st)
    for t, n in tags:
        ctx.seen(t, n)
    m.seen = ctx.seen
    structure(ctx, st)
    for p, segs, final in zip(st.pages, pre, fin):
        for s, blocks in segs:
            compare(ctx, st, before, st.get(st.all[s.oid].blocks), blocks, "preliminary ", m)
        compare(ctx, st, before, st.get(p["blocks"]), final, "", m)


def compare(ctx, st, before, got, exp, what, m):
    a, b = [k.lines for k in got], [[l.oid for l in k["lines"]] for k in exp]
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ctx.fail(what + "blocks", "%sblock %d has the lines %s instead of %s" % (
            what, i, [st.all[o].text for o in a[i]] if i < len(a) else None, [st.all[o].text for o in b[i]] if i < len(b) else None))
        return
    for k, e in zip(got, exp):
        for field, key in (("centered", "centering"), ("hang", "hanging indentation")):
            ctx.check(abs(getattr(k, field) - e[field]) < 1e-6, key, lambda: "%s%s: %s is %s instead of %s; lines %s" % (
                what, k, key, getattr(k, field), e[field], [st.all[o] for o in k.lines][:12]))
        ctx.check(ref.boxdiff(k.trim, e["trim"]) < 1e-6, "trim box", lambda: "%s%s: trim box %s instead of %s" % (what, k, k.trim, e["trim"]))
        if not what:
            for l, mg in zip(st.get(k.lines), e["margins"]):
                ctx.check(ref.boxdiff((l.lm, l.rm), mg) < 1e-6, "margins", lambda: "%s: margins %g, %g instead of %s" % (l, l.lm, l.rm, mg))
            ctx.seen("block: hanging", k.hang > 0)
            ctx.seen("block: centered", k.centered)
            try:
                ctx.check(bool(k.emph) == m.emph(k, 1), "emphasis", lambda: "%s (font %s, size %g) is %semphasized" % (k, k.font, k.fs, "" if k.emph else "not "))
            except Unsure:
                pass


def structure(ctx, st):
    """What holds for all blocks."""
    for p in st.pages:
        blocks = st.get(p["blocks"])
        segl = [l for s in st.get(p["segments"]) for l in s.lines]
        ctx.check([l for b in blocks for l in b.lines] == segl, "lines of blocks", "page %d: the blocks do not have the lines of the segments, in their order" % p["num"])
        for i, b in enumerate(blocks):
            ls = st.get(b.lines)
            ctx.check(ref.boxdiff(b.box(), ref.union(ls)) < 1e-6, "box", lambda: "%s: box of its lines %s" % (b, ref.union(ls)))
            ctx.check(b.text == " ".join(w.text for l in ls for w in st.get(l.words)), "text", lambda: "%s has the text %r" % (b, b.text))
            ctx.check(ref.is_mode(b.font, [l.font for l in ls]) and ref.is_mode(b.fs, [l.fs for l in ls]), "font", lambda: "%s has the font %s, size %g" % (b, b.font, b.fs))
            ctx.check(b.rot == ls[0].rot and b.page == p["num"] and b.segment == ls[0].segment, "direction", lambda: "%s: direction %d, page %d, segment %d" % (b, b.rot, b.page, b.segment))
            ctx.check(b.prev == (blocks[i - 1].oid if i else 0) and b.next == (blocks[i + 1].oid if i + 1 < len(blocks) else 0), "neighbours", lambda: "%s: wrong neighbours" % b)
            for j, l in enumerate(ls):
                ctx.check(l.block == b.oid and l.prev == (ls[j - 1].oid if j else 0) and l.next == (ls[j + 1].oid if j + 1 < len(ls) else 0), "neighbours of lines",
                          lambda: "%s of %s: wrong block or neighbours" % (l, b))
            ctx.ok((b.text, b.box()))
