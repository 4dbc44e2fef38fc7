"""What the serializers must write, computed from the recorded final state of a document."""
import json

ROLES = ["paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info", "abstract", "date", "caption", "table",
         "other", "toc"]
TYPES = ["pages", "blocks", "lines", "words", "characters", "figures", "shapes"]
KIND = {"page": "pages", "block": "blocks", "line": "lines", "word": "words", "char": "characters", "figure": "figures", "shape": "shapes"}


def raw(s):
    return s.encode("utf-8", "surrogateescape")


def char_text(st, c):
    return c.dtext if c.baseOf else "" if c.markOf else c.text


def blocks(st, roles):
    for p in st.pages:
        for k in st.get(p["blocks"]):
            if ROLES[k.role] in roles:
                yield p, k


def block_words(st, k):
    for l in st.get(k.lines):
        for w in st.get(l.words):
            yield w


def plain(st, roles, extended=False):
    """The plain text (extended: with roles, marks of emphasized blocks and page breaks), as bytes."""
    out, first, merged = [], True, 0
    for p in st.pages:
        for k in st.get(p["blocks"]):
            if ROLES[k.role] not in roles:
                continue
            if not first:
                out.append("\n\n")
            first = False
            if extended:
                out.append("[%s] %s" % (ROLES[k.role].upper(), "\x01" if k.emph else ""))
            toks = []
            for w in block_words(st, k):
                if w.hyphSecond and w.hyphSecond == merged:
                    continue
                if w.hyphFirst:
                    merged = w.hyphFirst
                    toks.append(st.words[merged].text)
                else:
                    toks.append("".join(char_text(st, c) for c in st.get(w.chars)))
            out.append(" ".join(toks))
        if extended:
            out.append("\n\x0c")
    out.append("\n")
    return raw("".join(out))


def box(o):
    return {"page": int(o.page), "minX": o.x0, "minY": o.y0, "maxX": o.x1, "maxY": o.y1}


def records(st, roles, types):
    """The records of each type, in order; texts are str with surrogate escapes."""
    r = {t: [] for t in types}
    org = {"origin": "pdftotext++"}
    if "pages" in r:
        for p in st.pages:
            r["pages"].append(dict(type="page", num=p["num"], width=p["w"], height=p["h"], **org))
    for p in st.pages:
        if "figures" in r:
            for f in st.get(p["figures"]):
                r["figures"].append(dict(type="figure", rank=f.rank, id=f.id, **box(f), **org))
        if "shapes" in r:
            for f in st.get(p["shapes"]):
                r["shapes"].append(dict(type="shape", rank=f.rank, id=f.id, **box(f), **org))
    for p, k in blocks(st, roles):
        if "blocks" in r:
            r["blocks"].append(dict(type="block", id=k.id, rank=k.rank, font=k.font, fontSize=k.fs, text=k.text, role=ROLES[k.role], **box(k), **org))
        for w in block_words(st, k):
            if "words" in r:
                r["words"].append(dict(type="word", id=w.id, rank=w.rank, font=w.font, fontSize=w.fs, text=w.text, block=k.id, **box(w), **org))
            if "characters" in r:
                for c in st.get(w.chars):
                    if c.markOf:
                        continue
                    f = st.fonts[c.font]
                    d = dict(type="char", id=c.id, rank=c.rank, font=c.font, fontSize=c.fs, weight=f["weight"], italic=bool(f["italic"]),
                             color=c.color, opacity=c.opacity, text=char_text(st, c), word=w.id, block=k.id, wMode=c.wmode, rotation=c.rot,
                             **box(c), **org)
                    d["type-3"] = bool(f["type3"])
                    r["characters"].append(d)
    if "lines" in r:
        del r["lines"]   # text lines are not written
    return r


def same(a, b):
    """Whether a written value equals an expected one (numbers are written with six significant digits)."""
    if isinstance(b, bool) or isinstance(a, bool):
        return a is b
    if isinstance(b, (int, float)):
        return isinstance(a, (int, float)) and abs(a - b) <= 2e-5 * max(abs(b), 1e-3)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def parse(data, ctx):
    """The records of JSONL output, by type, in order."""
    def pairs(p):
        ks = [k for k, _ in p]
        ctx.check(len(set(ks)) == len(ks), "duplicate key", lambda: "a record has a key twice: %r" % ks)
        return dict(p)

    def const(c):
        ctx.fail("not JSON", "a record contains %s" % c)
        return 0
    r = {}
    ctx.check(data == b"" or data.endswith(b"\n"), "unterminated", "the last line does not end with a newline: %r" % data[-80:])
    for ln in data.split(b"\n")[:-1]:
        try:
            # Texts in other encodings than UTF-8 are passed through.
            d = json.loads(ln.decode("utf-8", "surrogateescape"), object_pairs_hook=pairs, parse_constant=const)
        except ValueError as e:
            ctx.fail("not JSON", "a line is not valid JSON: %r (%s)" % (ln[:300], e))
            continue
        if not ctx.check(isinstance(d, dict) and d.get("type") in KIND, "unknown record", "a line is not a record: %r" % ln[:300]):
            continue
        r.setdefault(KIND[d["type"]], []).append(d)
    return r


def compare(ctx, got, exp, what, ignore=()):
    """Compares the records of JSONL output with the expected records."""
    for t in set(got) | set(exp):
        g, e = got.get(t, []), exp.get(t, [])
        if not ctx.check(len(g) == len(e), "records: " + t, lambda: "%s: %d records of type %s instead of %d; roles/types: %s" % (what, len(g), t, len(e), what)):
            continue
        for i, (a, b) in enumerate(zip(g, e)):
            for k, v in b.items():
                if k in ignore:
                    continue
                if k not in a or not same(a[k], v):
                    ctx.fail("field %s of %s" % (k, t), "%s: record %d has %s=%r instead of %r (record: %r)" % (what, i, k, a.get(k), v, a))
                    break
