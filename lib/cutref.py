"""Reference of the recursive division of elements by cuts, written from the documentation of the cuts. Groups are sets; the order of elements at the
same position is left open: all functions take the elements in some order, and callers compare the results for several orders."""
import random
import ref

T = ref.TOL
STRICT = [True]  # Whether a case is undetermined if elements at the same position may matter.
TIE = [False]    # Whether an element comes before those that have the same right end.


class Unsure(Exception):
    """The result depends on a tie."""


class Cut:
    def __init__(self, dir, pos, before, after, box, gw, gh, over=()):
        self.dir, self.pos, self.before, self.after, self.box, self.gw, self.gh, self.over, self.chosen = dir, pos, before, after, box, gw, gh, list(over), False

    def key(self):
        return (self.dir, self.chosen, self.pos, tuple(round(v, 5) for v in self.box), round(self.gw, 5), round(self.gh, 5))


def near(d, t):
    if abs(d - t) < 1e-8:
        raise Unsure()


def ordered(elements, key):
    """Sorted by a coordinate; elements at (nearly) the same coordinate keep their order."""
    s = sorted(elements, key=key)
    out, i = [], 0
    rank = {id(e): k for k, e in enumerate(elements)}
    while i < len(s):
        j = i + 1
        while j < len(s) and key(s[j]) - key(s[j - 1]) <= T + 1e-8:
            near(key(s[j]) - key(s[j - 1]), T)
            j += 1
        if key(s[j - 1]) - key(s[i]) > T:
            raise Unsure()
        out += sorted(s[i:j], key=lambda e: rank[id(e)])
        i = j
    return out


def ties(s, lo, hi, mingap, maxover):
    """Raises Unsure if the order of elements at the same position may matter: for the elements s, sorted by lo."""
    i = 0
    while i < len(s):
        j = i + 1
        while j < len(s) and lo(s[j]) - lo(s[j - 1]) <= T + 1e-8:
            j += 1
        if j > i + 1:
            if any(hi(e) - lo(e) <= 2 * T - mingap for e in s[i:j]):
                raise Unsure()      # There may be a gap between the elements.
            if maxover and i and sum(hi(e) > lo(s[i]) - mingap - T for e in s[:i]) < maxover:
                raise Unsure()      # The first of the elements may be tolerated.
        i = j


def xcut(elements, mingap, maxover, choose):
    """(success, groups, cuts)"""
    if not elements:
        return False, [], []
    s = ordered(elements, lambda e: e.x0)
    if STRICT[0]:
        ties(s, lambda e: e.x0, lambda e: e.x1, mingap, maxover)
    y0, y1 = min(e.y0 for e in s), max(e.y1 for e in s)
    largest, cuts = [s[0]], []      # The elements with the largest right ends so far, in descending order.
    for pos, e in enumerate(s[1:], 1):
        over = []
        for p in largest:
            g = e.x0 - p.x1
            near(g, mingap - T)
            if g >= mingap - T:
                x = p.x1 + g / 2
                cuts.append(Cut("x", pos, p, e, (x, y0, x, y1), g, y1 - y0, over))
                break
            over.append(p)
        k = next((i for i, p in enumerate(largest) if e.x1 > p.x1 + (-1e-8 if TIE[0] else T)), len(largest))
        for p in largest:
            if 0 < abs(abs(e.x1 - p.x1) - T) < 1e-8 or 1e-8 < abs(e.x1 - p.x1) <= T:
                raise Unsure()
        largest.insert(k, e)
        del largest[maxover + 1:]
    choose(cuts, s)
    return split(s, cuts)


def ycut(elements, mingap, choose):
    if not elements:
        return False, [], []
    s = ordered(elements, lambda e: e.y0)
    if STRICT[0]:
        ties(s, lambda e: e.y0, lambda e: e.y1, mingap, 0)
    x0, x1 = min(e.x0 for e in s), max(e.x1 for e in s)
    low, cuts = s[0], []
    for pos, e in enumerate(s[1:], 1):
        g = e.y0 - low.y1
        near(g, mingap - T)
        if g >= mingap - T:
            y = low.y1 + g / 2
            cuts.append(Cut("y", pos, low, e, (x0, y, x1, y), x1 - x0, g))
        if 1e-8 < abs(e.y1 - low.y1) <= T + 1e-8:
            raise Unsure()
        if e.y1 > low.y1 + T:
            low = e
    choose(cuts, s)
    return split(s, cuts)


def split(s, cuts):
    b = [0] + [c.pos for c in cuts if c.chosen] + [len(s)]
    return len(b) > 2, [s[i:j] for i, j in zip(b, b[1:])], cuts


def xycut(elements, minx, miny, maxover, choosex, choosey):
    """(groups, cuts)"""
    groups, cuts = [], []

    def ydiv(g):
        ok, gs, cs = ycut(g, miny, choosey)
        cuts.extend(cs)
        return gs if ok else None

    def rec(els):
        ok, xs, cs = xcut(els, minx, maxover, choosex)
        cuts.extend(cs)
        for g in (xs if ok else [els]):
            ys = ydiv(g)
            if ys is None:
                groups.append(g)
            else:
                for y in ys:
                    rec(y)
    if elements:
        rec(elements)
    return groups, cuts


def same(results):
    """The result, if all are the same; otherwise raises Unsure."""
    if any(r != results[0] for r in results[1:]):
        raise Unsure()
    return results[0]


def variants(elements, f, strict=True):
    """The results of f for several orders of elements at the same position."""
    out = []
    r = random.Random(len(elements))
    try:
        STRICT[0] = strict
        for k in range(4 if strict else 6):
            els = list(elements) if k < 2 else list(elements)[::-1]
            if k > 3:
                r.shuffle(els)
            TIE[0] = k % 2 == 1
            out.append(f(els))
    finally:
        TIE[0] = False
        STRICT[0] = True
    return out


class Segmentation:
    """The choice of the cuts on dividing a page into segments."""

    def __init__(self, st, seen=lambda t, n=1: None):
        s = st.stats
        self.aw, self.ah = s["avgCharWidth"], s["avgCharHeight"]
        self.minx, self.miny, self.maxover = 2.0 * s["mostFreqWordDistance"], 2.0, 1
        self.seen = self.out = seen
        self.silent = lambda t, n=1: None

    def choosex(self, cuts, els):
        prev = None
        for c in cuts:
            why = self.refuse(c, els, prev)
            self.seen("x: " + (why or "chosen"))
            c.chosen = not why
            if c.chosen:
                prev = c

    def refuse(self, c, els, prev):
        aw, ah = self.aw, self.ah
        if c.over:
            if len(els) < 500:
                return "overlaps, few elements"
            if any(c.after.x0 - e.x0 <= T + 1e-8 for e in c.over):
                raise Unsure()      # It matters which of the elements at the same position is the first one.
            for e in c.over:
                for m in (e.y0 - c.box[1], c.box[3] - e.y1):
                    near(m, 5 * ah - T)
                    if m < 5 * ah - T:
                        return "overlaps at the margin"
            self.seen("x: tolerated overlap")
        near(c.gw, 2 * aw - T)
        near(c.gh, 6 * ah - T)
        if c.gw < 2 * aw - T and c.gh < 6 * ah - T:
            return "small"
        w = c.before
        if w.kind == "word":
            for e in els[c.pos:]:
                if e.kind == "word" and e.rank == w.rank + 1:
                    near(ref.yover(w, e), .1 - T)
                    if ref.yover(w, e) >= .1 - T:
                        return "contiguous words"
        l = c.before.x1 - (prev.after if prev else els[0]).x0
        r = els[-1].x1 - c.after.x0
        near(l, 10 * aw - T)
        near(r, 10 * aw - T)
        if len({e.x1 - c.after.x0 < 10 * aw - T for e in els[c.pos:] if e.x0 >= els[-1].x0 - T - 1e-8}) > 1:
            raise Unsure()      # It matters which of the last elements is the last one.
        if l < 10 * aw - T:
            return "slim left"
        if r < 10 * aw - T:
            return "slim right"
        return None

    def lookahead(self, els):
        self.seen, keep = self.silent, self.seen
        try:
            return xcut(els, self.minx, self.maxover, self.choosex)[0]
        finally:
            self.seen = keep

    def choosey(self, cuts, els):
        if not cuts:
            return
        pos = [0] + [c.pos for c in cuts] + [len(els)]
        cs = [None] + list(cuts) + [None]
        i = 0
        while i < len(cs):
            a, j = i, i + 1
            # As many parts below the cut as can be divided together.
            while j < len(cs) and self.lookahead(els[pos[a]:pos[j]]):
                i = j
                j += 1
            if i > a:
                for k in (a, i):
                    if cs[k]:
                        cs[k].chosen = True
                self.seen("y: several parts" if i > a + 1 else "y: one part")
            i += 1

    def run(self, elements):
        return xycut(elements, self.minx, self.miny, self.maxover, self.choosex, self.choosey)


TITLE, AUTHOR, MARGINAL = 6, 7, 2


class ReadingOrder:
    """The order of the blocks of a page."""

    def __init__(self, st, roles, seen=lambda t, n=1: None):
        s = st.stats
        self.aw, self.ah = s["avgCharWidth"], s["avgCharHeight"]
        self.roles, self.seen, self.minx, self.miny = roles, seen, 0, 0

    def tied(self, cuts, els, lo, hi, f):
        """Decides on the cuts. It must not matter which of the elements next to the cut, at the same position, is decisive."""
        for c in cuts:
            bs = [e for e in els[:c.pos] if abs(hi(e) - hi(c.before)) <= T + 1e-8]
            as_ = [e for e in els[c.pos:] if abs(lo(e) - lo(c.after)) <= T + 1e-8]
            why = f(c.before, c.after)
            if len({bool(f(a, b)) for a in bs for b in as_}) > 1:
                raise Unsure()
            c.chosen = bool(why)
            self.seen("first %s: %s" % (c.dir, why or "not chosen"))

    def primx(self, cuts, els):
        def f(b, a):
            why = None
            for e in (b, a):
                if e.kind == "block":
                    if e.rot or e.wmode:
                        why = "rotated text"
                else:
                    near(e.y1 - e.y0, 10 * self.ah)
                    near(e.y0, self.my)
                    near(e.y1, self.my)
                    if e.y1 - e.y0 > 10 * self.ah and e.y0 < self.my < e.y1:
                        why = why or "high separator"
            return why
        self.tied(cuts, els, lambda e: e.x0, lambda e: e.x1, f)

    def primy(self, cuts, els):
        def f(b, a):
            r = [self.roles[e.oid] if e.kind == "block" else None for e in (b, a)]
            why = next((n for k, n in ((TITLE, "title"), (AUTHOR, "authors"), (MARGINAL, "marginal")) if (r[0] == k) != (r[1] == k)), None)
            for e in (b, a):
                if e.kind != "block":
                    near(e.x1 - e.x0, 10 * self.aw)
                    near(e.x0, self.mx)
                    near(e.x1, self.mx)
                    if e.x1 - e.x0 > 10 * self.aw and e.x0 < self.mx < e.x1:
                        why = why or "wide separator"
            return why
        self.tied(cuts, els, lambda e: e.y0, lambda e: e.y1, f)

    def choosex(self, cuts, els):
        for c in cuts:
            c.chosen = True

    def divisible(self, els):
        return xcut(els, self.minx, 0, self.choosex)[0]

    def choosey(self, cuts, els):
        if not cuts:
            return
        first, last = 0, len(cuts) - 1
        for i, c in enumerate(cuts):
            if self.divisible(els[c.pos:]):
                c.chosen, last = True, i
                self.seen("y: part below")
                break
        for i in range(last, first - 1, -1):
            if self.divisible(els[:cuts[i].pos]):
                cuts[i].chosen, first = True, i
                self.seen("y: part above")
                break
        i = first
        while i < last:
            for j in range(last, i, -1):
                if self.divisible(els[cuts[i].pos:cuts[j].pos]):
                    cuts[i].chosen = cuts[j].chosen = True
                    self.seen("y: part between")
                    i = j
                    break
            i += 1

    def run(self, els):
        """(blocks, cuts)"""
        if not els:
            return [], []
        x0, y0, x1, y1 = ref.union(els)
        self.mx, self.my = x0 + (x1 - x0) / 2, y0 + (y1 - y0) / 2
        _, xs, cuts = xcut(els, self.minx, 0, self.primx)
        groups = []
        for g in xs:
            _, ys, cs = ycut(g, self.miny, self.primy)
            cuts = cuts + cs
            for h in ys:
                gs, cs = xycut(h, self.minx, self.miny, 0, self.choosex, self.choosey)
                groups += gs
                cuts = cuts + cs
        out = []
        for g in groups:
            bs = sorted((e for e in g if e.kind == "block"), key=lambda e: e.y0)
            if any(b.y0 - a.y0 < 1e-8 for a, b in zip(bs, bs[1:])):
                raise Unsure()
            out += [b.oid for b in bs]
        return out, cuts
