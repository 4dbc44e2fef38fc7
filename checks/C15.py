"""JSONL output: each line is one valid JSON object, and the objects are exactly the extracted elements with their values."""
import chaos, layout, serial
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 160, "thorough": 5000}
RULE = "one record that was written; distinct: by its type, text, box and font"
MUST_SEE = ["pages", "blocks", "words", "characters", "figures", "shapes", "escaped", "non-ascii", "font to be escaped", "mark", "several pages", "empty document",
            "type3", "italic", "bold", "colored", "transparent", "rotated", "all types", "single type", "stdout"]
HARD = ['"', "\\", "/", "\b", "\x01", "\x1f", "\x7f", "\x0c", "�", "é", "中", "\U0001f600", "\u2028", "<", "&", "'", "\x00a"]


def special(rng):
    """Text with characters that need to be escaped, in fonts with names that need to be escaped."""
    d = Doc()
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = d.page()
        fonts = [Font(n, kind=rng.choice(["simple", "type3", "cid"])) for n in (b"CMR10", b'Qu"ote', b"Back\\slash", b"Tab\tName", b"Caf\xc3\xa9", b"Bell\x07")]
        v = 60
        for _ in range(rng.randint(0, 12)):
            f = rng.choice(fonts)
            u = 50
            p.set_color(*rng.choice([(0, 0, 0), (1, 0, 0), (.2, .4, .6)]))
            if rng.random() < .2:
                p.set_opacity(rng.choice([1, .5, .3]))
            for _ in range(rng.randint(1, 20)):
                t = rng.choice(HARD) if rng.random() < .3 else rng.choice("abcdefXYZ019-.")
                u += p.glyph(t, u, v, f, 10).w + rng.choice([0, 0, 0, 4, 15])
            v += rng.choice([12, 12, 30])
    return d


def case(ctx):
    r = ctx.rng
    k = ctx.idx % 5
    if k == 0:
        doc = special(r)
    elif k == 1 and r.random() < .3:
        doc = Doc()
        doc.page()
    elif k == 1:
        doc = layout.farmarks(r)
    else:
        doc = layout.anydoc(r)
    roles = ["*"] if r.random() < .7 else r.sample(serial.ROLES, r.randint(1, 13))
    all_types = r.random() < .6
    types = list(serial.TYPES) if all_types else r.sample(serial.TYPES, r.randint(1, 3))
    stdout = r.random() < .1
    target = "-" if stdout else ctx.path("sub%d/x/out.jsonl" % ctx.idx if r.random() < .2 else "out.jsonl")
    stages, status = ctx.rec(doc, stages="final", outs=["jsonl:%s:%s:%s" % (",".join(roles), ",".join(types), target)],
                             skip=r.choice([None] * 6 + ["reading-order", "words", "blocks", "diacritics"]), env={"PPP_STUB_MODEL": "hash", "PPP_STUB_SEED": str(ctx.idx)})
    if status:
        return
    st = stages["final"]
    data = ctx.last[1] if stdout else ctx.output(target)
    ctx.seen("stdout", stdout)
    ctx.seen("all types" if all_types else "single type", all_types or len(types) == 1)
    got = serial.parse(data, ctx)
    exp = serial.records(st, serial.ROLES if roles == ["*"] else roles, types)
    serial.compare(ctx, got, exp, "%s %s" % (",".join(roles), ",".join(types)))
    ctx.seen("several pages", len(st.pages) > 1)
    ctx.seen("empty document", not st.chars)
    for t, rs in got.items():
        ctx.seen(t, len(rs))
        for d in rs:
            ctx.ok((t, d.get("text"), d.get("font"), d.get("minX"), d.get("minY"), d.get("maxX"), d.get("maxY")))
            if t == "characters":
                x = d.get("text", "")
                ctx.seen("escaped", any(c in '"\\' or c < " " for c in x))
                ctx.seen("non-ascii", any(c > "\x7f" for c in x))
                ctx.seen("font to be escaped", any(c in '"\\' or c < " " for c in d.get("font", "")))
                ctx.seen("type3", bool(d.get("type-3")))
                ctx.seen("italic", bool(d.get("italic")))
                ctx.seen("bold", d.get("weight", 0) > 500)
                ctx.seen("rotated", d.get("rotation", 0) > 0)
                ctx.seen("transparent", d.get("opacity", 1) < 1)
                ctx.seen("colored", max(d.get("color", [0])) > 0)
    ctx.seen("mark", any(c.markOf for c in st.chars.values()))
    # What is written is what was drawn: with all roles, each extracted character of the text blocks appears exactly once.
    if roles == ["*"] and "characters" in types and "characters" in got:
        ids = [d.get("id") for d in got["characters"]]
        words = [w for _, b in serial.blocks(st, serial.ROLES) for w in serial.block_words(st, b)]
        ctx.check(sorted(ids) == sorted(c.id for w in words for c in st.get(w.chars) if not c.markOf), "characters written", "other characters were written than extracted")
    if got.get("words"):
        ctx.sample("%d records, for example %r" % (sum(map(len, got.values())), got["words"][0]))
