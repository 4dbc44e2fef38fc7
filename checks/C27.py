"""Switching off steps: a step that is switched off changes nothing, and the steps that do not depend on it give the same result."""
import json, os, re
import layout, serial
from checks import C18
from pdfgen import Font

PROGRAMS = ["rec", "cli"]
N = {"quick": 60, "thorough": 3000}
RULE = "one document, extracted with a set of steps switched off (in the pipeline or by the options of the tool) and without; distinct: by the set and the document"
STEPS = ["fonts", "glyph-stats", "diacritics", "words", "word-stats", "segmentation", "lines", "scripts", "line-stats", "blocks", "reading-order", "roles", "dehyphenation"]
OPT = {"fonts": "embedded-font-files-parsing", "glyph-stats": "glyphs-statistics-calculation", "diacritics": "diacritic-marks-merging", "words": "words-detection",
       "word-stats": "words-statistics-calculation", "segmentation": "page-segmentation", "lines": "text-lines-detection", "scripts": "sub-super-scripts-detection",
       "line-stats": "text-lines-statistics-calculation", "blocks": "text-blocks-detection", "reading-order": "reading-order-detection", "roles": "semantic-roles-prediction",
       "dehyphenation": "words-dehyphenation"}
STAGES = ["parsing", "glyph-stats", "diacritics", "words", "word-stats", "segmentation", "lines", "scripts", "line-stats", "blocks", "reading-order", "final"]
TIMED = ["glyph-stats", "diacritics", "words", "word-stats", "segmentation", "lines", "scripts", "line-stats", "blocks", "reading-order", "dehyphenation"]
# The steps that each step uses the results of.
USES = {"fonts": [], "glyph-stats": ["fonts"], "diacritics": ["fonts"], "words": ["fonts", "diacritics"], "word-stats": ["words", "glyph-stats"], "segmentation": ["words", "glyph-stats", "word-stats"], "lines": ["segmentation", "glyph-stats", "word-stats"],
        "scripts": ["lines", "glyph-stats", "word-stats"], "line-stats": ["lines", "scripts", "word-stats"], "blocks": ["lines", "glyph-stats", "word-stats", "line-stats", "scripts", "fonts"],
        "reading-order": ["blocks", "segmentation", "glyph-stats", "roles"], "roles": ["blocks", "reading-order"], "dehyphenation": ["blocks", "reading-order"]}
# The stage after which the result of a step is looked at.
SHOWN = {"fonts": "parsing", "dehyphenation": "final", "roles": "reading-order"}
MUST_SEE = ["without " + s for s in STEPS] + ["kept " + s for s in STEPS if s != "dehyphenation"] + ["effect of " + s for s in STEPS] + ["tool", "all steps", "no dehyphenation"]
ASSUMPTIONS = ["what a step may depend on is given by a table (the steps of which it uses results), transitively"]


def needs(s):
    out, todo = set(), [s]
    while todo:
        for x in USES[todo.pop()]:
            if x not in out:
                out.add(x)
                todo.append(x)
    return out


def shown(s):
    return SHOWN.get(s, s)


def project(st, s):
    """The result of a step, without ids and numbers of objects."""
    idx = {}
    for p in st.pages:
        for k in ("chars", "words", "shapes", "graphics", "figures"):
            for i, o in enumerate(p[k]):
                idx[o] = (p["num"], k, i)
        for j, o in enumerate(p["segments"]):
            idx[o] = (p["num"], "segments", j)
            for i, l in enumerate(st.all[o].lines):
                idx[l] = (p["num"], j, i)
    pos = lambda o: (o.page, o.box(), o.rot, o.wmode)
    ix = lambda os_: [idx.get(o, o and "?") for o in os_]
    out = []
    if s == "fonts":
        return sorted((k, repr(v)) for k, v in st.fonts.items()), [[(c.text, pos(c), c.fs, c.font, c.name, c.uni, c.base, c.color, c.opacity) for c in st.get(p["chars"])] for p in st.pages]
    if s == "glyph-stats":
        return [st.stats[k] for k in ("avgCharWidth", "avgCharHeight", "mostFreqFontSize", "mostFreqFontName")]
    if s in ("word-stats", "line-stats"):
        return sorted((k, repr(v)) for k, v in st.stats.items() if k not in ("avgCharWidth", "avgCharHeight", "mostFreqFontName", "mostFreqFontSize") and (s == "line-stats") == ("ine" in k and "stim" not in k))
    for p in st.pages:
        cs = st.get(p["chars"])
        if s == "diacritics":
            out.append([(c.dtext, ix([c.markOf, c.baseOf])) for c in cs])
        elif s == "words":
            out.append([(w.text, pos(w), w.fs, w.font, w.rank, w.base, ix(w.chars), ix([w.partOf]), ix(w.stackBaseOf)) for w in st.get(p["words"])])
            out.append([ix([c.word]) for c in cs])
        elif s == "segmentation":
            out.append([(pos(g), ix(g.elements), g.trim) for g in st.get(p["segments"])])
            out.append([(c["dir"], c["p"], c["chosen"], c["gw"], c["gh"], c["pos"]) for c in p["bcuts"]])
        elif s == "lines":
            out.append([[(pos(l), l.text, l.fs, l.font, ix(l.words), ix([l.segment]), l.bbb, l.maxfs, l.base) for l in st.get(g.lines)] for g in st.get(p["segments"])])
            out.append([ix([w.line]) for w in st.get(p["words"])])
        elif s == "scripts":
            out.append([(c.sub, c.sup) for c in cs])
        else:
            for b in st.get(p["blocks"]):
                if s == "blocks":
                    out.append((pos(b), b.text, b.fs, b.font, ix(b.lines), ix([b.segment]), b.centered, b.emph, b.hang, b.trim, b.rank))
                elif s == "reading-order":
                    out.append(ix(b.lines))
                elif s == "roles":
                    out.append((ix(b.lines), b.role))
                elif s == "dehyphenation":
                    for l in st.get(b.lines):
                        for w in st.get(l.words):
                            h = [st.words[o].text if o else None for o in (w.hyphFirst, w.hyphSecond)]
                            out.append((ix([w.oid]), h, [ix([st.words[o].hyphFirst, st.words[o].hyphSecond]) if o else None for o in (w.hyphFirst, w.hyphSecond)]))
            if s == "reading-order":
                out.append([(c["dir"], c["p"], c["chosen"], c["gw"], c["gh"], c["pos"]) for c in p["rcuts"]])
    return out


def raw(path):
    out = {}
    with open(path) as f:
        for line in f:
            d = json.loads(line)
            out[d.pop("stage")] = d
    return out


def difference(a, b):
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], dict):
                for o in a[k]:
                    if a[k][o] != b[k].get(o):
                        return "%s: %r / %r" % (k, a[k][o], b[k].get(o))
            return "%s: %r / %r" % (k, str(a[k])[:300], str(b.get(k))[:300])
    return "none"


def case(ctx):
    r = ctx.rng
    doc = C18.generate(r, ctx.idx)
    if r.random() < .5:
        # Something for each step: scripts, diacritics, hyphens, items.
        p = doc.page(w=612, h=792)
        f = Font(b"CMR10", width=500)
        for i, t in enumerate(["some words that end with a hyph-", "enated one and more text here", "e\u0301 and a\u0308 with accents", "1 a footnote with text that is", "long enough for two lines of it", "x2 is here", "2 another one"]):
            # A character and a mark after it: the mark is drawn over the character.
            words = [[tuple(c) if len(c) > 1 else c for c in re.findall(".[\u0300-\u036f]?", w)] for w in t.split(" ")]
            p.text_run(words, 72 + 20 * (i == 3), 80 + 13 * i, f, 10)
        p.text_run(["1"], 64, 80 + 13 * 3 - 4, f, 6)
        p.text_run(["2"], 200, 80 + 13 * 5 + 2, f, 6)
        for i in range(4):
            p.text_run([list("left"), list("column")], 72, 300 + 12 * i, f, 10)
            p.text_run([list("right"), list("column")], 320, 300 + 12 * i, f, 10)
    data = doc.build()
    env = {"PPP_STUB_MODEL": r.choice(["hash", "seq"]), "PPP_STUB_SEED": str(ctx.idx)}
    full, status = ctx.rec(data, stages="all", env=env)
    if status:
        return
    pdf = ctx.path("in.pdf")
    sets = [{STEPS[(ctx.idx + i * 7) % len(STEPS)]} for i in range(2)] + [set(r.sample(STEPS, r.choice([2, 2, 3, 4])))] + ([set(STEPS)] if r.random() < .05 else [])
    for n, X in enumerate(sets):
        name = ",".join(sorted(X, key=STEPS.index))
        part, status = ctx.rec(data, stages="all", skip=name, env=env, name="p%d" % n)
        if not ctx.check(not status, "status", lambda: "without %s: status %s" % (name, status)):
            continue
        if not ctx.check(set(part) == set(full), "stages", lambda: "without %s: the stages are %s" % (name, sorted(part))):
            continue
        ev = raw(ctx.path("p%d.ev" % n))
        for s in X:
            ctx.seen("without " + s)
            if s == "fonts":
                ctx.check(not any(f["glyphs"] for f in part["parsing"].fonts.values()), "not skipped: fonts", lambda: "without %s: glyphs were read from the embedded font files" % name)
            elif s == "roles":
                roles = {b.role for p in part["final"].pages for b in part["final"].get(p["blocks"])}
                ctx.check(len(roles) <= 1, "not skipped: roles", lambda: "without %s: the roles are %s" % (name, roles))
            else:
                b = "final" if s == "dehyphenation" else s
                a = STAGES[STAGES.index(b) - 1]
                # The roles are recorded from the stage of the reading order on; the lines of a page are collected at the end.
                for v in (ev[a], ev[b]):
                    for p in v["pages"]:
                        p.pop("lines", None)
                    for o in v["blocks"].values():
                        o.pop("role", None)
                if ev[a] != ev[b]:
                    ctx.fail("not skipped: " + s, "without %s: the step changed: %s" % (name, difference(ev[a], ev[b])))
            if project(full[shown(s)], s) != project(part[shown(s)], s):
                ctx.seen("effect of " + s)
        for t in STEPS:
            if t in X or needs(t) & X:
                continue
            a, b = project(full[shown(t)], t), project(part[shown(t)], t)
            ctx.check(a == b, "changed: " + t, lambda: "without %s: %s differs: %s" % (name, t, next(("%r / %r" % (str(x)[:500], str(y)[:500]) for x, y in zip(a, b) if x != y), "")))
            ctx.seen("kept " + t)
        ctx.seen("all steps", len(X) == len(STEPS))
        # The same by the options of the tool.
        fmt = r.choice(["jsonl", "jsonl", "txt-extended", "txt"])
        opts = ["--no-dehyphenation" if s == "dehyphenation" and r.random() < .3 else "--skip-" + OPT[s] for s in X]
        ctx.seen("no dehyphenation", "--no-dehyphenation" in opts)
        if "dehyphenation" in X and r.random() < .4:
            # Both options for the same step.
            opts = sorted(set(opts) | {"--no-dehyphenation", "--skip-" + OPT["dehyphenation"]})
        r.shuffle(opts)
        argv = [ctx.bins["cli"], "--format", fmt] + r.choice([opts + [pdf], [pdf] + opts]) + ["--print-running-times"]
        rc, out, err = ctx.run(argv, env=env)
        if rc != 0:
            ctx.check(rc is not None and 0 < rc < 128, "crash", "x")
            ctx.fail("status of the tool", "%s: status %s: %s" % (" ".join(opts), rc, err[-1200:].decode("utf-8", "replace")))
            continue
        m = re.search(rb"(\x1b\[[0-9;]*m)?Finished in ", out)
        if not ctx.check(m is not None, "running times", lambda: "%s: no running times" % opts):
            continue
        times = [x.strip() for x in re.findall(rb"^ \* ([^:]*):", out[m.start():], re.M)]
        out = out[:m.start()]
        what = "with " + " ".join(opts)
        st = part["final"]
        if fmt == "jsonl":
            serial.compare(ctx, serial.parse(out, ctx), serial.records(st, serial.ROLES, serial.TYPES), what, ignore=("id", "word", "block"))
        else:
            e = serial.plain(st, serial.ROLES, fmt == "txt-extended")
            ctx.check(out == e, "output of the tool", lambda: "%s: %r instead of %r" % (what, out[:400], e[:400]))
        want = [s for s in TIMED if s not in X]
        ctx.check(len(times) == len(want) + 3, "steps of the tool", lambda: "%s: the steps that were executed are %s" % (what, times))
        ctx.seen("tool")
        ctx.ok((name, ctx.idx, fmt))
        ctx.sample("without %s: %d words, %d blocks; steps of the tool: %s" % (name, len(st.words), sum(len(p["blocks"]) for p in st.pages), b", ".join(times).decode()))
