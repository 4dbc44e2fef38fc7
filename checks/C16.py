"""Plain text output: the text of all words in the order of reading, with the documented separators, and no text is lost or written twice."""
import os
import chaos, layout, serial
from checks.C05 import formula
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 160, "thorough": 5000}
RULE = "one text block that was written, per format; distinct: by its text and the format"
MUST_SEE = ["txt", "ext", "emphasized", "hyphenated", "hyphenated across blocks", "mark", "several blocks", "several pages", "no blocks", "role filter",
            "stacked", "stdout", "into new folder", "empty page", "hyphenated, second part filtered",
            "existing file", "name with a dash"]


def hyphens(rng):
    """Blocks (and pages) that end with hyphenated words."""
    d = Doc()
    fs = 10
    f = Font(b"CMR10", width=500)
    for _ in range(rng.choice([1, 2, 3])):
        p = d.page(w=400, h=rng.choice([200, 400]))
        if rng.random() < .15:
            continue
        v = 40
        while v < p.h - 40:
            for _ in range(rng.randint(1, 4)):
                words = [rng.choice(layout.VOCAB) for _ in range(rng.randint(1, 5))]
                if rng.random() < .6:
                    words[-1] += "-"
                if rng.random() < .1:
                    words = [rng.choice(["-", "co-", "semi-", "--"])]
                p.text_run([list(w) for w in words], 40, v, f, fs)
                v += 12
            v += rng.choice([14, 30])
    return d


def case(ctx):
    r = ctx.rng
    k = ctx.idx % 6
    if k in (0, 1):
        doc = hyphens(r)
    elif k == 2 and r.random() < .3:
        doc = Doc()
        for _ in range(r.randint(1, 2)):
            doc.page()
    elif k == 2 and r.random() < .6:
        doc = layout.farmarks(r)
    elif k == 3:
        m = chaos.Maker(r, turn=False, origin=False, kinds=("simple",))
        m.mathfont = Font(b"CMEX10", names={"Q": "summationdisplay", "R": "productdisplay", "S": "integraltext"})
        for p in m.doc.pages:
            m.p = p
            for _ in range(r.randint(1, 5)):
                formula(m)
        doc = m.doc
    else:
        doc = layout.anydoc(r)
    sub = "a/b c'd/%d/" % ctx.idx if r.random() < .2 else ""
    jobs = []
    for i, fmt in enumerate(("txt", "ext", r.choice(["txt", "ext"]))):
        roles = ["*"] if i < 2 else r.sample(serial.ROLES, r.randint(1, 12))
        t = "-" if i == 2 and r.random() < .3 else ctx.path("%sout%d" % (sub, i))
        if i == 2 and t != "-" and not sub:
            if r.random() < .3:
                # A file that exists already is replaced.
                ctx.write("out2", b"Old text\n" * r.choice([1, 5000]))
                ctx.seen("existing file")
            elif r.random() < .3:
                # A file in the current folder, whose name starts with a dash.
                t = ctx.path(r.choice(["-out", "--", "-.txt", "- "]))
                ctx.seen("name with a dash")
        jobs.append((fmt, roles, t))
    stages, status = ctx.rec(doc, stages="final", outs=["%s:%s:*:%s" % (f, ",".join(ro), os.path.basename(t) if os.path.basename(t)[0] == "-" else t) for f, ro, t in jobs],
                             skip=r.choice([None] * 7 + ["reading-order", "dehyphenation", "diacritics", "blocks"]),
                             env={"PPP_STUB_MODEL": r.choice(["hash", "seq", "const:0"]), "PPP_STUB_SEED": str(ctx.idx)})
    if status:
        return
    st = stages["final"]
    for fmt, roles, t in jobs:
        data = ctx.last[1] if t == "-" else ctx.output(t)
        rs = serial.ROLES if roles == ["*"] else roles
        exp = serial.plain(st, rs, fmt == "ext")
        ctx.check(data == exp, "output: " + fmt, lambda: "with the roles %s, %r was written instead of %r" % (roles, diff(data, exp), diff(exp, data)))
        ctx.seen(fmt)
        ctx.seen("stdout", t == "-")
        ctx.seen("role filter", roles != ["*"])
        ks = list(serial.blocks(st, rs))
        ctx.seen("no blocks", not ks)
        ctx.seen("several blocks", len(ks) > 1)
        for p, b in ks:
            ctx.ok((fmt, b.text))
            ws = list(serial.block_words(st, b))
            ctx.seen("emphasized", bool(b.emph))
            ctx.seen("hyphenated", any(w.hyphFirst for w in ws))
            ctx.seen("stacked", any(w.partOf for w in ws))
            ctx.seen("mark", any(c.baseOf for w in ws for c in st.get(w.chars)))
            if any(w.hyphSecond for w in ws[:1]):
                ctx.seen("hyphenated across blocks")
            if roles != ["*"] and ws and ws[-1].hyphFirst:
                s = next((w for w in st.words.values() if w.hyphSecond == ws[-1].hyphFirst), None)
                if s is not None and s.line and ROLES_OF(st, s) not in rs:
                    ctx.seen("hyphenated, second part filtered")
        # Independent of the bookkeeping of hyphenated words: no character is lost or written twice, except for hyphens at the ends of lines.
        if fmt == "txt":
            marks = b"".join(data.split())
            full = "".join(serial.char_text(st, c) for _, b in ks for w in serial.block_words(st, b) for c in st.get(w.chars))
            if roles == ["*"]:
                ctx.check(no_hyphens(marks) == no_hyphens(b"".join(serial.raw(full).split())), "text lost or duplicated",
                          lambda: "the text that was written is not the text of the characters: %r" % diff(marks, serial.raw(full)))
    ctx.seen("into new folder", bool(sub))
    ctx.seen("several pages", len(st.pages) > 1)
    ctx.seen("empty page", any(not p["blocks"] for p in st.pages))
    b = next(iter(st.blocks.values()), None)
    if b:
        ctx.sample("block %r as txt and txt-extended" % b.text[:100])


def ROLES_OF(st, w):
    l = st.lines.get(w.line)
    b = st.blocks.get(l.block) if l else None
    return serial.ROLES[b.role] if b else None


def no_hyphens(s):
    return s.replace(b"-", b"")


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return a[max(0, i - 40):i + 80]
