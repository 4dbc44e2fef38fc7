"""Structural consistency: after each step, boxes, texts, references, ranks and attributes of all elements agree with those of their parts."""
import collections

import chaos, layout, ref, serial
from checks.C05 import formula
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 180, "thorough": 6000}
RULE = "one word, line, block or segment of one recorded step; distinct: by its kind, text and box"
MUST_SEE = ["words", "lines", "blocks", "segments", "rotated", "mark", "stacked", "several pages", "multi-line block", "neighbours", "step switched off", "hyphenated",
            "mixed fonts in line", "mixed sizes in line"]
EPS = 1e-6
ORDER = ["parsing", "glyph-stats", "diacritics", "words", "word-stats", "segmentation", "lines", "scripts", "line-stats", "blocks", "reading-order", "final"]


def case(ctx):
    r = ctx.rng
    if ctx.idx % 6 == 5:
        m = chaos.Maker(r, turn=False, origin=False)
        m.mathfont = Font(b"CMEX10", width=600, names={"Q": "summationdisplay", "R": "productdisplay", "S": "integraltext"})
        for p in m.doc.pages:
            m.p = p
            for _ in range(r.randint(1, 6)):
                formula(m)
        doc = m.doc
    else:
        doc = layout.anydoc(r)
    skip = r.choice(["diacritics", "word-stats", "scripts", "line-stats", "glyph-stats", "dehyphenation", "reading-order"]) if r.random() < .25 else None
    sts, status = ctx.rec(doc, skip=skip, env={"PPP_STUB_SEED": str(ctx.idx)})
    if status:
        return
    ctx.seen("step switched off", bool(skip))
    for name in ORDER:
        if name in sts:
            step(ctx, name, sts[name], sts)
    fin = sts["final"]
    ctx.seen("several pages", len(fin.pages) > 1)
    ctx.sample("%d steps; at the end %s" % (len(sts), {k: len(getattr(fin, k)) for k in fin.KINDS}))


def step(ctx, name, st, sts):
    i = ORDER.index(name)

    def ck(cond, key, o, msg):
        ctx.check(cond, key, lambda: "after %s: %s: %s" % (name, o, msg()))
        return cond
    nums = [p["num"] for p in st.pages]
    ctx.check(nums == sorted(set(nums)), "pages", lambda: "page numbers %s" % nums)
    # The lines of a page are the lines of its parts, and at the end those of its blocks, in order.
    for p in st.pages:
        parts = "blocks" if name == "final" else "segments" if i >= ORDER.index("lines") else None
        if parts:
            want = [l for o in st.get(p[parts]) for l in o.lines]
            ctx.check(list(p["lines"]) == want, "lines of page", lambda: "after %s: page %d has %d lines, its %s have %d" % (name, p["num"], len(p["lines"]), parts, len(want)))
    # The elements of the pages: ranks, pages, documents.
    seq = []
    for p in st.pages:
        for kd in ("chars", "shapes", "graphics", "figures", "words", "blocks", "segments"):
            for o in st.get(p[kd]):
                ck(o.doc == 1, "document", o, lambda: "does not refer to its document")
                ck(o.page == p["num"], "page", o, lambda: "is on page %d" % p["num"])
                ck(o.id != "", "id", o, lambda: "has no id")
                ck(o.x0 <= o.x1 + EPS and o.y0 <= o.y1 + EPS, "box order", o, lambda: "the coordinates are swapped")
        for kd in ("chars", "shapes", "graphics"):
            rk = [o.rank for o in st.get(p[kd])]
            ctx.check(rk == sorted(rk), "rank of " + kd, lambda: "after %s: the ranks of the %s of page %d are %s" % (name, kd, p["num"], rk[:50]))
            seq += rk
        for f in st.get(p["figures"]):
            seq += [o.rank for o in st.get(f.chars + f.shapes + f.graphics)]
            for o in st.get(f.chars + f.shapes + f.graphics):
                ck(o.page == p["num"] and o.doc == 1, "page", o, lambda: "in a figure of page %d" % p["num"])
    ctx.check(len(set(seq)) == len(seq), "rank twice", lambda: "after %s: two elements have the same rank" % name)
    # (A merged hyphenated word is only a carrier of a text: it has no place on a page and no id.)
    os = [o for kd in st.KINDS for o in getattr(st, kd).values() if o.page >= 1]
    cnt = collections.Counter(o.id for o in os)
    ctx.check(len(cnt) == len(os), "id twice", lambda: "after %s: two elements have the same id: %s" % (name, [o for o in os if cnt[o.id] > 1][:4]))
    if i < ORDER.index("words"):
        return
    # Words.
    for p in st.pages:
        ws = st.get(p["words"])
        ctx.check([w.rank for w in ws] == list(range(len(ws))), "rank of words", lambda: "the ranks of the words of page %d are %s" % (
            p["num"], [w.rank for w in ws][:40]))
        for w in ws:
            cs = st.get(w.chars)
            if not ck(bool(cs), "empty word", w, lambda: "has no characters"):
                continue
            ctx.seen("words")
            ctx.seen("rotated", w.rot > 0)
            ctx.seen("mark", any(c.baseOf for c in cs))
            ctx.ok(("word", w.text, w.box()))
            ck(all(c.word == w.oid for c in cs), "word of a character", w, lambda: "its characters refer to other words: %s" % [c.word for c in cs])
            ck(ref.boxdiff(w.box(), ref.union(cs)) < EPS, "box of a word", w, lambda: "its characters extend over %s" % (ref.union(cs),))
            t = "".join(serial.char_text(st, c) for c in cs)
            ck(w.text == t, "text of a word", w, lambda: "its characters are %r" % t)
            ck(all(c.rot == w.rot and c.wmode == w.wmode for c in cs), "direction of a word", w, lambda: "its characters run in other directions")
            ck(w.font in ref.modes(c.font for c in cs), "font of a word", w, lambda: "font %r" % w.font)
            ck(ref.is_mode(w.fs, [c.fs for c in cs]), "size of a word", w, lambda: "size %g" % w.fs)
            rk = [c.rank for c in cs]
            ck(rk == sorted(rk), "order of the characters of a word", w, lambda: "ranks %s" % rk)
            for b in st.get(w.stackBaseOf):
                ck(b.partOf == w.oid, "stacked symbol", w, lambda: "%s is attached to it but does not refer to it" % b)
                ctx.seen("stacked")
            if w.partOf:
                b = st.all[w.partOf]
                ck(w.oid in b.stackBaseOf and b.page == w.page, "stacked symbol", w, lambda: "refers to %s, which does not refer to it" % b)
    for c in st.chars.values():
        if c.markOf:
            ck(not c.word, "word of a mark", c, lambda: "a mark is part of a word")
    if i < ORDER.index("segmentation"):
        return
    for p in st.pages:
        for s in st.get(p["segments"]):
            es = st.get(s.elements)
            if not ck(bool(es), "empty segment", s, lambda: "has no elements"):
                continue
            ctx.seen("segments")
            ctx.ok(("segment", s.box(), s.page))
            ck(ref.boxdiff(s.box(), ref.union(es)) < EPS, "box of a segment", s, lambda: "its elements extend over %s" % (ref.union(es),))
            ck(all(e.page == s.page for e in es), "page of a segment", s, lambda: "has elements of other pages")
    if i < ORDER.index("lines"):
        return
    rank = 0
    for p in st.pages:
        for s in st.get(p["segments"]):
            prev = {}
            for l in st.get(s.lines):
                ws = st.get(l.words)
                ck(l.rank == rank, "rank of a line", l, lambda: "rank %d instead of %d" % (l.rank, rank))
                rank += 1
                if not ck(bool(ws), "empty line", l, lambda: "has no words"):
                    continue
                ctx.seen("lines")
                ctx.ok(("line", l.text, l.box()))
                cs = [c for w in ws for c in st.get(w.chars)]
                ck(l.segment == s.oid and l.page == p["num"] and l.doc == 1 and l.id != "", "segment of a line", l, lambda: "segment %s, page %s" % (l.segment, l.page))
                ck(all(w.line == l.oid for w in ws), "line of a word", l, lambda: "its words refer to other lines")
                ck(ref.boxdiff(l.box(), ref.union(ws)) < EPS, "box of a line", l, lambda: "its words extend over %s" % (ref.union(ws),))
                ck(l.text == " ".join(w.text for w in ws), "text of a line", l, lambda: "its words are %s" % [w.text for w in ws])
                ck(l.font in ref.modes(c.font for c in cs), "font of a line", l, lambda: "font %r" % l.font)
                ck(ref.is_mode(l.fs, [c.fs for c in cs]), "size of a line", l, lambda: "size %g; of the characters: %s" % (l.fs, [c.fs for c in cs]))
                ck(abs(l.maxfs - max(c.fs for c in cs)) < EPS, "largest size of a line", l, lambda: "size %g" % l.maxfs)
                ck(ref.is_mode(l.base, [c.base for c in cs]), "base of a line", l, lambda: "base line %g; of the characters: %s" % (l.base, [c.base for c in cs]))
                ck(all(w.rot == l.rot for w in ws if not w.partOf), "direction of a line", l, lambda: "its words run in other directions")
                ck(any(w.wmode == l.wmode for w in ws), "writing mode of a line", l, lambda: "writing mode %d" % l.wmode)
                ctx.seen("mixed fonts in line", len({c.font for c in cs}) > 1)
                ctx.seen("mixed sizes in line", len({c.fs for c in cs}) > 1)
                if i < ORDER.index("blocks"):
                    pv = prev.get(l.rot)
                    ck(l.prev == (pv.oid if pv else 0), "previous line", l, lambda: "previous line is %s instead of %s" % (st.all.get(l.prev), pv))
                    if pv:
                        ck(pv.next == l.oid, "next line", pv, lambda: "next line is %s instead of %s" % (st.all.get(pv.next), l))
                        ctx.seen("neighbours")
                    prev[l.rot] = l
                if l.prevSib:
                    ck(st.all[l.prevSib].nextSib == l.oid, "siblings", l, lambda: "the previous sibling does not refer to it")
                    ck(st.all[l.prevSib].parent == l.parent, "siblings", l, lambda: "siblings have different parents")
                if l.nextSib:
                    ck(st.all[l.nextSib].prevSib == l.oid, "siblings", l, lambda: "the next sibling does not refer to it")
                if l.parent:
                    ck(st.all[l.parent].page == l.page and st.all[l.parent].rank < l.rank, "parent", l, lambda: "parent %s" % st.all[l.parent])
            if i < ORDER.index("blocks"):
                for l in prev.values():
                    ck(l.next == 0, "next line", l, lambda: "the last line has a next line")
    if i < ORDER.index("blocks"):
        return
    for p in st.pages:
        ks = st.get(p["blocks"])
        if name == "blocks":
            ctx.check([k.rank for k in ks] == list(range(len(ks))), "rank of blocks", lambda: "ranks %s" % [k.rank for k in ks])
        else:
            ctx.check(sorted(k.rank for k in ks) == list(range(len(ks))), "rank of blocks", lambda: "ranks %s" % [k.rank for k in ks])
        for j, k in enumerate(sorted(ks, key=lambda k: k.rank)):
            ls = st.get(k.lines)
            if not ck(bool(ls), "empty block", k, lambda: "has no lines"):
                continue
            by = sorted(ks, key=lambda k: k.rank)
            ck(k.prev == (by[j - 1].oid if j else 0) and k.next == (by[j + 1].oid if j + 1 < len(by) else 0), "neighbours of a block", k,
               lambda: "previous block %s, next block %s" % (st.all.get(k.prev), st.all.get(k.next)))
            ctx.seen("blocks")
            ctx.seen("multi-line block", len(ls) > 1)
            ctx.ok(("block", k.text, k.box()))
            ck(ref.boxdiff(k.box(), ref.union(ls)) < EPS, "box of a block", k, lambda: "its lines extend over %s" % (ref.union(ls),))
            ck(k.text == " ".join(l.text for l in ls), "text of a block", k, lambda: "its lines are %s" % [l.text for l in ls])
            ck(k.font in ref.modes(l.font for l in ls), "font of a block", k, lambda: "font %r" % k.font)
            ck(ref.is_mode(k.fs, [l.fs for l in ls]), "size of a block", k, lambda: "size %g" % k.fs)
            ck(all(l.rot == k.rot for l in ls), "direction of a block", k, lambda: "its lines run in other directions")
            ck(any(l.wmode == k.wmode for l in ls), "writing mode of a block", k, lambda: "writing mode %d" % k.wmode)
            ck(all(l.block == k.oid for l in ls), "block of a line", k, lambda: "its lines refer to other blocks")
            ck(all(l.segment == k.segment for l in ls), "segment of a block", k, lambda: "its lines are in other segments")
            rk = [l.rank for l in ls]
            ck(rk == list(range(rk[0], rk[0] + len(rk))), "lines of a block", k, lambda: "the lines do not follow each other: ranks %s" % rk)
            for a, l in enumerate(ls):
                ck(l.prev == (ls[a - 1].oid if a else 0) and l.next == (ls[a + 1].oid if a + 1 < len(ls) else 0), "neighbours in a block", l,
                   lambda: "previous line %s, next line %s" % (st.all.get(l.prev), st.all.get(l.next)))
            sg = st.segments[k.segment]
            e = (max(k.x0, sg.trim[0]), max(k.y0, sg.trim[1]), min(k.x1, sg.trim[2]), min(k.y1, sg.trim[3]))
            ck(ref.boxdiff(k.trim, e) < EPS, "trim box of a block", k, lambda: "trim box %s instead of %s" % (k.trim, e))
    if name == "final":
        for w in st.words.values():
            for o, back in ((w.hyphFirst, "hyphFirst"), (w.hyphSecond, "hyphSecond")):
                if o:
                    ctx.seen("hyphenated")
                    others = [x for x in st.words.values() if getattr(x, "hyphSecond" if back == "hyphFirst" else "hyphFirst") == o]
                    ck(len(others) >= 1, "hyphenated word", w, lambda: "the other part of %s is missing" % st.all[o])
