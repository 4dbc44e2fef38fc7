"""The statistics on which all decisions depend: most frequent sizes, fonts and distances, average extents."""
import layout, chaos, ref
from pdfgen import Doc, Font

PROGRAMS = ["rec"]
N = {"quick": 220, "thorough": 6000}
RULE = "one statistic of one document, computed from at least two values; distinct: by the statistic and its value"
MUST_SEE = ["most frequent size", "most frequent font", "average extents", "word height", "word distance", "line distance estimate", "line distance",
            "line distance per size", "no characters", "clear winner", "several pages", "rotation skipped", "mode skipped", "size skipped"]


def modes_of_writing(r):
    """Words in vertical writing mode next to turned words in horizontal mode (so that both have the same direction), side by side and below each
    other; the distance of two words depends on their modes, and most pairs are of different modes."""
    d = Doc()
    f, g = Font(b"CMR10", width=500), Font(b"Mincho", kind="cidv", width=1000)
    gaps = {k: r.choice([4, 6, 9, 13, 18]) for k in ("hh", "hv", "vh", "vv")}
    for _ in range(r.choice([1, 2])):
        p = d.page(w=800, h=600)
        x, y, last = 60, 80, None
        for i in range(r.randint(8, 24)):
            k = "v" if last == "h" and r.random() < .8 else "h"
            if last:
                x += 10 + gaps[last + k]
            if x > 700:
                x, y = 60, y + 80
            for j in range(3):
                if k == "h":
                    p.glyph("abc"[j], x, y + 5 * j, f, 10, 1)
                else:
                    p.glyph("縦書日"[j], x, y + 10 * j, g, 10, 0)
                    p.glyphs[-1].vert, p.glyphs[-1].rot = True, 1
            last = k
    return d


def case(ctx):
    r = ctx.rng
    if ctx.idx % 20 == 7:
        doc = Doc()
        p = doc.page()
        if r.random() < .5:
            p.path([(20, 20), (200, 20)])
    elif ctx.idx % 10 == 3:
        doc = modes_of_writing(r)
    else:
        doc = layout.anydoc(r)
    sts, _ = ctx.rec(doc, stages="glyph-stats,words,word-stats,scripts,line-stats")
    st = sts["glyph-stats"]
    s = st.stats
    g = ref.glyph_stats(st)
    if len(st.pages) > 1:
        ctx.seen("several pages")

    def mode(name, value, values, what):
        m = ref.modes(values)
        ctx.seen(what)
        if len(m) == 1:
            ctx.seen("clear winner")
        ctx.check(ref.is_mode(value, values), name, lambda: "%s is %r; the most frequent values are %s" % (name, value, sorted(m)[:10]))
        if len(values) > 1:
            ctx.ok((name, value))

    def unset(name, value):
        ctx.check(value == 0 or value == "", name, lambda: "%s is %r although there is nothing to count" % (name, value))
    if g:
        mode("the most frequent font size", s["mostFreqFontSize"], g["sizes"], "most frequent size")
        mode("the most frequent font", s["mostFreqFontName"], g["names"], "most frequent font")
        ctx.check(abs(s["avgCharWidth"] - g["aw"]) < 1e-6, "average width", lambda: "the average width is %r instead of %r" % (s["avgCharWidth"], g["aw"]))
        ctx.check(abs(s["avgCharHeight"] - g["ah"]) < 1e-6, "average height", lambda: "the average height is %r instead of %r" % (
            s["avgCharHeight"], g["ah"]))
        ctx.seen("average extents")
        ctx.ok(("avg", g["aw"], g["ah"]))
    else:
        ctx.seen("no characters")
        for k in ("mostFreqFontSize", "mostFreqFontName"):
            unset(k, s[k])
    st = sts["word-stats"]
    s = st.stats
    hs, hg, vg = ref.word_stats(st)
    for name, vals, tag in (("mostFreqWordHeight", hs, "word height"), ("mostFreqWordDistance", hg, "word distance"),
                            ("mostFreqEstimatedLineDistance", vg, "line distance estimate")):
        if vals:
            mode(name, s[name], vals, tag)
        else:
            unset(name, s[name])
    if any(v < -1 for v in hg):
        ctx.seen("negative word distance")
    for p in st.pages:
        ws = st.get(p["words"])
        for a, b in zip(ws, ws[1:]):
            if a.rot != b.rot:
                ctx.seen("rotation skipped")
            ctx.seen("mode skipped", a.rot == b.rot and a.wmode != b.wmode)
        for w in ws:
            if ref.lt(w.fs, s["mostFreqFontSize"], 1.0):
                ctx.seen("size skipped")
    for k in ("avgCharWidth", "avgCharHeight", "mostFreqFontSize", "mostFreqFontName"):
        ctx.check(s[k] == sts["glyph-stats"].stats[k], "changed", lambda: "%s changed" % k)
    st = sts["line-stats"]
    s = st.stats
    alld, per = ref.line_stats(st)
    if alld:
        mode("mostFreqLineDistance", s["mostFreqLineDistance"], alld, "line distance")
    else:
        unset("mostFreqLineDistance", s["mostFreqLineDistance"])
    got = dict(s["lineDistPerFs"])
    ctx.check(set(got) == set(per), "line distances per size", lambda: "line distances for the sizes %s instead of %s" % (sorted(got), sorted(per)))
    for fs, v in got.items():
        if fs in per:
            mode("the most frequent line distance for size %g" % fs, v, per[fs], "line distance per size")
    ctx.sample("%d pages, statistics %s" % (len(st.pages), {k: v for k, v in s.items() if k != "lineDistPerFs"}))
