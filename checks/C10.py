"""Semantic roles: the inputs of the (stand-in) model are compared with features computed from the recorded blocks and with a reference encoder."""
import os, unicodedata
import build, chaos, layout, unitio
from checks import C09
from pdfgen import Doc, Font

PROGRAMS = ["rec", "unit"]
N = {"quick": 260, "thorough": 8000}
RULE = "one text block with the input and output of the model for it, or one encoded text; distinct: by the features or the vocabulary and text"
MUST_SEE = ["block", "switched off", "role != first", "bold", "italic", "@", "digit first", "non-ascii", "beyond the BMP", "cut", "padded", "unknown character", "merged twice", "same pair twice",
            "encoded", "several pages", "empty document"]
WS = " \t\r\n\f\v"
_voc = None


def vocabulary():
    global _voc
    if _voc is None:
        _voc = {}
        with open(os.path.join(build.MODELS, "bpe-vocab.tsv"), encoding="utf-8", newline="") as f:
            for line in f.read().split("\n")[:-1]:
                if "\t" in line:
                    t, i = line.split("\t", 1)
                    _voc.setdefault(t, int(i))
    return _voc


def encode(voc, text, n, ctx=None):
    """The reference: in each word (with a delimiter at its end), the first pair of neighbours that is in the vocabulary is merged wherever it is, as long as there is one."""
    pad, unk, delim = len(voc), len(voc) + 1, "\u2702"
    voc = dict(voc)
    voc["\u229b"] = pad
    voc["\u233e"] = unk
    voc[delim] = len(voc)
    res = []
    word = ""
    words = []
    for c in text:
        if c in WS:
            words.append(word)
            word = ""
        else:
            word += c
    words.append(word)
    for w in words:
        if not w:
            continue
        toks = list(w) + [delim]
        k = 0
        while len(toks) > 1:
            m = next((a + b for a, b in zip(toks, toks[1:]) if a + b in voc), None)
            if m is None:
                break
            new, i, hits = [], 0, 0
            while i < len(toks):
                if i + 1 < len(toks) and toks[i] + toks[i + 1] == m:
                    new.append(m)
                    i += 2
                    hits += 1
                else:
                    new.append(toks[i])
                    i += 1
            toks = new
            k += 1
            if ctx:
                ctx.seen("same pair twice", hits > 1)
        if ctx:
            ctx.seen("merged twice", k > 1)
            ctx.seen("unknown character", any(t not in voc for t in toks))
        res += [voc.get(t, unk) for t in toks]
    if n:
        if ctx:
            ctx.seen("padded", len(res) < n)
            ctx.seen("cut", len(res) > n)
        res = (res + [pad] * n)[:n]
    return res


def encodings(ctx):
    r = ctx.rng
    lines, exp, keys = [], [], []
    for _ in range(12):
        alpha = r.choice(["ab", "abc", "abcdefgh", "aeé ñ√✂", "ab\u03b1\u03b2."])
        alpha = alpha.replace(" ", "")
        voc = []
        if r.random() < .8:
            voc = [c for c in alpha if r.random() < .9 and c != "\u2702"]
        for _ in range(r.randint(0, 30)):
            a = r.choice(voc) if voc and r.random() < .8 else r.choice(alpha)
            b = r.choice(voc) if voc and r.random() < .8 else r.choice(alpha + "\u2702")
            # The symbols for the end of a word, for unknown characters and for padding get numbers of their own.
            if "\u2702" in a or a + b == "\u2702":
                continue
            if a + b not in voc and len(a + b) < 8:
                voc.append(a + b)
        texts = []
        for _ in range(r.randint(1, 6)):
            t = ""
            for _ in range(r.randint(0, 8)):
                t += "".join(r.choice(alpha.replace("\u2702", "")) for _ in range(r.randint(0, 9))) + r.choice([" ", " ", "  ", "\t", "\n", "\r", "\f", "\v", " \n"])
            t = t[:-1] if r.random() < .7 else t
            if r.random() < .3:
                t += r.choice("xyzÄ中-")
            texts.append((r.choice([0, 0, 1, 5, 20, 100]), t))
        # Words occur again (and are taken from the memory of the encoder).
        if r.random() < .6:
            texts.append((r.choice([0, 3, 50]), texts[0][1] + " " + texts[-1][1]))
        d = {w: i for i, w in enumerate(voc)}
        lines.append("bpe %d %s %s" % (len(voc), " ".join(unitio.hw(w) for w in voc), " ".join("%d %s" % (n, unitio.hw(t)) for n, t in texts)))
        exp.append([encode(d, t, n, ctx) for n, t in texts])
        keys.append((voc, texts))
    for a, e, (voc, texts) in zip(unitio.calls(ctx, lines), exp, keys):
        got = [[int(x) for x in p.strip().split(",") if x] for p in a.split(";")[:-1]]
        ctx.check(got == e, "encoding", lambda: "vocabulary %s, texts %s: encoded as %s; expected %s" % (voc, texts, got, e))
        ctx.seen("encoded", len(texts))
        ctx.ok((tuple(voc), tuple(texts)))


def styled(r):
    """Blocks with digits, symbols and characters of various kinds in various styles."""
    d = Doc()
    fonts = [Font(n, width=500, weight=w, flags=f, italic_angle=a) for n, w, f, a in (
        (b"CMR10", None, 34, 0), (b"CMBX10", 700, 34 + (1 << 18), 0), (b"CMTI10", None, 98, -12), (b"ABCDEF+Foo-BoldItalic", None, 34, 0),
        (b"Foo-Oblique", 500, 34, 0), (b"Foo-Black", None, 34, 0), (b"Foo-Medium", 501, 34, 0), (b"Foo-Light", 300, 34, -9), (b"Foo-Demi", 600, 34, 0))]
    kinds = ["abcdefghij", "ABCDEF", "0123456789", ".,;:-+()/&%!?*#", "éàñöü", "ÄÖÜÉ", "中文字", "αβγ", "@", "£§©°", "\u2019\u201c\u2013", "\U0001d400\U0001d41a\U0001d7ce"]
    for _ in range(r.choice([1, 1, 2, 3])):
        p = d.page(w=r.choice([300, 500.5, 612]), h=r.choice([400, 640.25, 792]), rotate=r.choice([0, 0, 0, 90, 180, 270]), origin=r.choice([(0, 0), (0, 0), (17, -40)]))
        W, H = p.w, p.h
        v = 40
        while v < H - 60:
            f, fs = r.choice(fonts), r.choice([7, 9.5, 10, 10, 14])
            ks = [r.choice(kinds) for _ in range(r.choice([1, 2, 3]))]
            for _ in range(r.choice([1, 1, 2, 4])):
                u, words = 0, []
                while u < W - 120 and len(words) < 12:
                    w = [r.choice(r.choice(ks)) for _ in range(r.choice([1, 3, 5, 8]))]
                    if r.random() < .2:
                        w = list(r.choice(layout.VOCAB))
                    words.append(w)
                    u += (len(w) * .5 + .35) * fs
                    if r.random() < .06:
                        break
                p.text_run(words, 40, v, f, fs, wordgap=.35 * fs)
                v += 1.2 * fs
            v += r.choice([1, 2.5]) * fs
    return d


def isspace(c):
    return c in WS


def up(c):
    """(certainly, possibly) an upper case letter; the classes of non-ASCII characters depend on the locale."""
    if ord(c) < 128:
        return (c.isupper(),) * 2
    return False, unicodedata.category(c) in ("Lu", "Lt") or c.isupper()


def punct(c):
    if ord(c) < 128:
        return (33 <= ord(c) < 127 and not c.isalnum(),) * 2
    return False, not c.isalnum() or not c.isdigit()


def space(c):
    return (c in WS, c in WS or (ord(c) > 127 and c.isspace()))


def share(text, f):
    """The range of (number of characters of the kind) / (number of characters that are not blanks)."""
    lo = sum(f(c)[0] for c in text)
    hi = sum(f(c)[1] for c in text)
    nmax = sum(not space(c)[0] for c in text)
    nmin = sum(not space(c)[1] for c in text)
    return (lo / nmax if nmax else 0, hi / nmin if nmin else 0)


def model(ctx):
    r = ctx.rng
    k = ctx.idx % 8
    if k in (1, 2, 3):
        doc = styled(r)
    elif k == 4:
        doc = C09.arrangement(r)
    elif k == 5 and r.random() < .3:
        doc = Doc()
        doc.page()
    elif k == 6:
        doc = chaos.document(r)
    else:
        doc = layout.anydoc(r)
    log = ctx.path("model.log")
    env = {"PPP_STUB_LOG": log, "PPP_STUB_SEED": str(r.randint(0, 9999)), "PPP_STUB_MODEL": r.choice(["hash", "hash", "hash", "seq", "const:13", "style"])}
    off = r.random() < .12
    sts, status = ctx.rec(doc, stages="line-stats,blocks,reading-order,final", skip="roles" if off else None, env=env, outs=["jsonl:*:blocks|pages:" + ctx.path("out.jsonl")])
    if status:
        ctx.seen("error status")
        return
    st, fin = sts["blocks"], sts["final"]
    if off:
        ctx.check(not os.path.exists(log), "switched off", "the model was called although the prediction is switched off")
        roles = [b.role for p in fin.pages for b in fin.get(p["blocks"])]
        ctx.check(all(x == 0 for x in roles), "switched off: role", lambda: "roles %s" % roles)
        ctx.seen("switched off")
        return
    rows = [(p, b) for p in st.pages for b in st.get(p["blocks"])]
    if not os.path.exists(log):
        ctx.fail("no call", "the model was not called")
        return
    with open(log) as f:
        L = [x.split() for x in f.read().splitlines()]
    calls = [x for x in L if x[0] == "CALL"]
    ctx.check(len(calls) == 1, "one call", "the model was called %d times" % len(calls))
    ctx.check(calls[0][1:] == [str(len(rows)), "15", "100"], "size of the input", lambda: "%s for %d blocks" % (calls[0], len(rows)))
    lay, words, probs = ([x[1:] for x in L if x[0] == c] for c in "LWP")
    if len(lay) != len(rows):
        return
    if not rows:
        ctx.seen("empty document")
    np = len(st.pages)
    ctx.seen("several pages", np > 1)
    sizes = [b.fs for _, b in rows]
    # Text blocks get a role only once; they are the same objects afterwards.
    for i, (p, b) in enumerate(rows):
        ctx.seen("beyond the BMP", any(ord(c) > 0xffff for c in b.text))
        fi = st.fonts.get(b.font)
        if fi is None:
            ctx.fail("font of block", "no font %r" % b.font)
            continue
        t = b.text
        w, h = p["w"], p["h"]
        ws = [x for l in st.get(b.lines) for x in st.get(l.words)]
        nw = len(ws)
        uw = [up(x.text[0]) if x.text else (False, False) for x in ws]
        e = [((p["num"] - 1) / (np - 1) if np > 1 else 0,) * 2,
             (b.x0 / w,) * 2, ((h - b.y1) / h,) * 2, (b.x1 / w,) * 2, ((h - b.y0) / h,) * 2,
             ((b.fs - min(sizes)) / (max(sizes) - min(sizes)) if max(sizes) > min(sizes) else 0,) * 2,
             (fi["weight"] > 500,) * 2, (fi["italic"],) * 2, ("@" in t,) * 2, (bool(t) and t[0] in "0123456789",) * 2,
             share(t, lambda c: (c in "0123456789", c.isdigit() and ord(c) > 127 or c in "0123456789")),
             share(t, lambda c: (ord(c) > 127,) * 2), share(t, punct),
             (sum(x[0] for x in uw) / nw if nw else 0, sum(x[1] for x in uw) / nw if nw else 0), share(t, up)]
        got = [float(x) for x in lay[i]]
        names = ["page", "left", "lower", "right", "upper", "font size", "bold", "italic", "@", "first digit", "digits", "non-ASCII", "punctuation", "upper case words", "upper case letters"]
        # A non-ASCII digit as the first character is left open.
        if t and ord(t[0]) > 127 and t[0].isdigit():
            e[9] = (0, 1)
        for n, g, (lo, hi) in zip(names, got, e):
            tol = 1e-4 * (1 + abs(lo))
            ctx.check(lo - tol <= g <= hi + tol, "feature: " + n, lambda: "block %r: %s is %r; expected %s" % (b, n, g, (float(lo), float(hi))))
        we = encode(vocabulary(), t, 100, ctx)
        gw = [int(x) for x in words[i]]
        ctx.check(gw == we, "feature: words", lambda: "block %r: words are encoded as %s; expected %s" % (b, gw, we))
        pr = [float(x) for x in probs[i]]
        best = {j for j, x in enumerate(pr) if x == max(pr)}
        for s in ("reading-order", "final"):
            o = sts[s].blocks.get(b.oid)
            ctx.check(o is not None and o.role in best, "role", lambda: "%s: block %r has the role %s; the scores are %s" % (s, b, o and o.role, pr))
        ctx.seen("block")
        ctx.seen("role != first", 0 not in best)
        ctx.seen("bold", fi["weight"] > 500)
        ctx.seen("italic", bool(fi["italic"]))
        ctx.seen("@", "@" in t)
        ctx.seen("digit first", e[9][0] == 1)
        ctx.seen("non-ascii", any(ord(c) > 127 for c in t))
        ctx.ok((tuple(got), tuple(gw)))
    ctx.sample("%d blocks on %d pages; roles %s" % (len(rows), np, [b.role for p in fin.pages for b in fin.get(p["blocks"])][:12]))


def case(ctx):
    if ctx.idx % 8 == 0:
        encodings(ctx)
    else:
        model(ctx)
