"""Robustness: damaged, hostile and ordinary files with all options; the sanitized tool must end with a result or an error status."""
import os, re
import chaos, layout, serial, type1
from checks import C05, C07, C09, C10
from pdfgen import Doc, Font

PROGRAMS = ["cli"]
N = {"quick": 900, "thorough": 30000}
RULE = "one run of the tool; distinct: by the bytes of the file and the options"
MUST_SEE = ["ordinary", "damaged bytes", "damaged tokens", "hostile content", "hostile font", "hostile structure", "no pdf", "status 0", "error status", "visualization", "log level trace",
            "some text", "very long digits", "a page filter", "running times"]
TIMEOUT = 60
SKIPS = ["embedded-font-files-parsing", "glyphs-statistics-calculation", "diacritic-marks-merging", "words-detection", "words-statistics-calculation", "page-segmentation",
         "text-lines-detection", "sub-super-scripts-detection", "text-lines-statistics-calculation", "text-blocks-detection", "reading-order-detection", "semantic-roles-prediction",
         "words-dehyphenation"]
DEBUGS = SKIPS[1:] + ["pdf-parsing"]
VIS = ["characters", "graphics", "figures", "shapes", "words", "text-lines", "text-blocks", "segments", "segment-cuts", "reading-order", "reading-order-cuts"]
EXTREME = [b"0", b"-1", b"1", b"0.0001", b"-0.0001", b"1e10", b"99999999999", b"-99999999999", b"2147483647", b"-2147483648", b"4294967296", b"1000000", b"-1000000", b"32768",
           b"255", b"65535", b"0.5", b"100000000000000000000000000000000000000000", b"-100000000000000000000000000000000000000000", b".", b"-", b"--5", b"nan", b"inf"]
OPS = [b"q", b"Q", b"cm", b"BT", b"ET", b"Tj", b"TJ", b"Tf", b"Tm", b"Td", b"T*", b"'", b'"', b"re", b"m", b"l", b"c", b"v", b"y", b"h", b"S", b"s", b"f", b"f*", b"B", b"B*", b"b", b"n", b"W",
       b"W*", b"Do", b"gs", b"sh", b"cs", b"CS", b"sc", b"scn", b"SCN", b"g", b"G", b"rg", b"RG", b"k", b"K", b"w", b"J", b"j", b"M", b"d", b"ri", b"i", b"BI", b"ID", b"EI", b"Tc", b"Tw", b"Tz",
       b"TL", b"Tr", b"Ts", b"d0", b"d1", b"BX", b"EX", b"MP", b"DP", b"BMC", b"BDC", b"EMC"]


def base(r):
    k = r.randint(0, 7)
    if k == 0:
        return chaos.document(r)
    if k == 1:
        m = chaos.Maker(r, npages=1)
        m.mathfont = Font(b"CMEX10", width=600)
        C05.formula(m)
        return m.doc
    if k == 2:
        return C07.structured(r)
    if k == 3:
        return C09.arrangement(r)
    if k == 4:
        return C10.styled(r)
    if k == 5:
        return fontdoc(r)
    return layout.anydoc(r)


def fontdoc(r, damage=None):
    d = Doc()
    p = d.page(w=300, h=300)
    for i in range(r.choice([1, 2])):
        pr = type1.Program(r, ["A", "B", "C", "D"])
        if damage:
            damage(pr)
        ff = pr.write()
        if damage:
            l1, l2, l3, data = ff
            k = r.randint(0, 8)
            if k == 0:
                data = bytes(b if r.random() > r.choice([.001, .01, .1]) else r.randint(0, 255) for b in data)
            elif k == 1:
                l1, l2 = (r.choice([x, 0, -1, x + 1, x - 1, x * 1000, 2147483647, -2147483648]) for x in (l1, l2))
            elif k == 2:
                data = data[:r.randint(0, len(data))]
            if k >= 5:
                # Lengths that are missing or no numbers.
                l1, l2, l3 = (b"%d" % x if r.random() < .5 else other_value(r, b"%d" % x) for x in (l1, l2, l3))
            ff = (l1, l2, l3, data)
        f = Font(b"Foo%d" % i, fontfile=ff, names=dict(zip("ABCD", ["A", "B", "C", "D"])), fontfile_key=r.choice([b"/FontFile"] * 5 + [b"/FontFile2", b"/FontFile3"]))
        p.text_run([[r.choice("ABCD") for _ in range(4)] for _ in range(5)], 30, 50 + 50 * i, f, 12)
    return d


def damage_font(r):
    """Damages the char strings before they are encrypted."""
    def f(pr):
        for name in list(pr.glyphs):
            g = pr.glyphs[name]
            for _ in range(r.choice([0, 1, 3, 8])):
                i = r.randint(0, len(g))
                c = r.randint(0, 5)
                if c == 0 and g:
                    del g[min(i, len(g) - 1)]
                elif c == 1:
                    g.insert(i, r.choice([2147483647, -2147483648, 0, 1, 4, 1000000, 65536, -1]))
                elif c == 2:
                    g.insert(i, r.choice([x for x in type1.OPS]))
                elif c == 3:
                    g[i:i] = [r.choice([0, 1, 2, 4, 5, len(pr.subrs) - 1, 999]), "callsubr"]
                elif c == 4:
                    g[i:i] = [r.choice([0, 3, 100, 2147483647, -1]), r.choice([0, 1, 2, 3, 12, 99]), "callothersubr", "pop"]
                else:
                    g[i:i] = [r.choice([-2147483648, 5]), r.choice([0, -1]), "div"]
        if pr.subrs and r.random() < .5:
            # Subroutines that call each other.
            a, b = r.randrange(len(pr.subrs)), r.randrange(len(pr.subrs))
            pr.subrs[a] = [b, "callsubr", 5, "hmoveto"]
            pr.subrs[b] = [a, "callsubr", 5, "vmoveto", a, "callsubr"]
        pr.rd = r.choice([pr.rd, pr.rd, "RD", "-|", "xx"])
    return f


def damage_bytes(r, data):
    b = bytearray(data)
    for _ in range(r.choice([1, 2, 5, 20, 100])):
        i = r.randrange(len(b)) if b else 0
        k = r.randint(0, 4)
        if not b:
            break
        if k == 0:
            b[i] = r.randint(0, 255)
        elif k == 1:
            del b[i:i + r.choice([1, 1, 2, 10, 100])]
        elif k == 2:
            b[i:i] = bytes(r.randint(0, 255) for _ in range(r.choice([1, 4])))
        elif k == 3:
            b[i] ^= 1 << r.randint(0, 7)
        else:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.choice([3, 20, 200])]
    if r.random() < .15:
        b = b[:r.randrange(len(b) + 1)]
    return bytes(b)


def damage_tokens(r, data):
    """Replaces numbers, operators and names; repeats and drops pieces."""
    toks = re.split(rb"([ \n\[\]<>/]+)", data)
    n = r.choice([1, 2, 4, 10, 40])
    lo = 0
    if r.random() < .5:
        # Mostly what is not text.
        lo = next((i for i, t in enumerate(toks) if t == b"Tj" or t == b"TJ"), 0)
    for _ in range(n):
        i = r.randrange(lo, len(toks))
        t = toks[i]
        if re.fullmatch(rb"-?[0-9.]+", t):
            toks[i] = r.choice(EXTREME) if r.random() < .7 else b"%d" % r.randint(-10 ** r.randint(1, 9), 10 ** r.randint(1, 9))
        elif t in OPS:
            toks[i] = r.choice(OPS + [b""])
        elif r.random() < .3:
            toks[i] = r.choice(toks)
        elif r.random() < .2:
            j = r.randrange(len(toks))
            toks[i:i] = toks[j:j + r.choice([2, 6, 30])]
        elif r.random() < .3:
            del toks[i:i + r.choice([1, 2, 10])]
    return b"".join(toks)


def hostile(r, ctx):
    """Valid files with content that nobody expects."""
    d = Doc()
    f = Font(b"F", width=500)
    k = r.randint(0, 15) if ctx.idx > 6 else 0
    p = d.page(w=400, h=400)
    if k == 0:
        # A very long word of digits (or blanks and digits).
        n = r.choice([300, 2000]) if ctx.idx > 6 else 30000
        p.w = 5 * n + 100
        s = r.choice(["1", "12.", "(1)", "a", "[1", "XIV"]) if ctx.idx > 6 else "1"
        p.text_run([list((s * n)[:n])], 20, 50, f, 10)
        p.text_run([list("abc")], 20, 65, f, 10)
        ctx.seen("very long digits", n == 30000)
    elif k == 1:
        # Numbers of all magnitudes in matrices, sizes and widths.
        v = [0, 1e-9, 1e-4, 1, -1, 1e4, 1e8, 1e20, -1e20, 1e38, 1e300, 32767, -32768]

        def n():
            x = r.choice(v)
            return ("%.10f" % x).encode() if abs(x) < 1e9 else b"%d" % int(x)
        for _ in range(20):
            p.op(b"q %s %s %s %s %s %s cm BT /F0 %s Tf %s %s %s %s %s %s Tm %s Tc %s Tw %s Tz %s Ts (ab c) Tj ET Q" % tuple(n() for _ in range(17)))
            p.op(b"%s %s m %s %s l %s %s %s %s %s %s c S" % tuple(n() for _ in range(10)))
            p.op(b"q %s %s %s %s re W n %s %s %s %s re f Q" % tuple(n() for _ in range(8)))
        d.fontkey(f)
        f.code("a"), f.code("b"), f.code("c")
    elif k == 2:
        # Everything at the same place, or of no extent.
        for _ in range(60):
            p.glyph(r.choice("abc"), 100, 100, f, r.choice([10, .001, 10]))
            p.path([(100, 100)] * r.choice([1, 2]), r.choice([b"S", b"f"]))
            p.path([(r.choice([0, 100, 400]), 100), (r.choice([0, 100, 400]), r.choice([0, 100, 400]))])
    elif k == 3:
        # Deep nesting.
        n = r.choice([50, 400])
        for _ in range(n):
            p.op(b"q 1 1 398 398 re W n")
        p.glyph("a", 100, 100, f, 10)
        if r.random() < .5:
            p.op(b"Q " * n)
        p.op(b"Q " * r.choice([0, 3, 1000]))
        p.glyph("b", 120, 100, f, 10)
    elif k == 4:
        # A form that draws itself.
        p.begin_form(0, 0, 400, 400)
        p.glyph("a", 100, 100, f, 10)
        p.op(b"/Fm0 Do /Fm0 Do")
        p.end_form()
    elif k == 5:
        # Texts of all kinds in the map to Unicode.
        g = Font(b"G", kind=r.choice(["simple", "cid"]), width=500)
        for _ in range(60):
            t = r.choice(["\u0000", "\u0001", "\ufeff", "\uffff", "\u200b", "\u0301", "\u0301\u0301\u0301", "\U0010ffff", "\U0001f468\u200d\U0001f469", "\n", "\t", " ", "\u00a0", "a" * 60, "\"", "\\", "-", "\u00ad",
                          "\u202e", "\u1100\u1161", "☃", "ﷺ", "\u0001\u0002", "\u2028"])
            p.glyph(t, r.randint(10, 390), r.choice([100, 200, 300]), g, 10)
    elif k == 6:
        # Fonts with odd names.
        for i in range(5):
            g = Font(r.choice([b"", b"+", b"-", b"A+", b"ABCDEF+", b"\xff\xfe", b"a" * 300, b"1", b"-1", b"\n", b"\"\\", b"Bold", b"\x00"]), kind=r.choice(["simple", "type3", "cid", "std"]), t3name=r.random() < .5)
            p.text_run([list("ab"), list("c")], 50, 50 + 40 * i, g, 10)
    elif k == 7:
        # Pages of odd sizes, many pages, pages without contents.
        for _ in range(r.choice([3, 20, 150])):
            q = d.page(w=r.choice([0, 1, .1, 400, 14400, 1000000, -100]), h=r.choice([0, 1, .1, 400, 14400, 1000000, -100]), rotate=r.choice([0, 90, 180, 270]), origin=(r.choice([0, 1e6, -1e6]), 0))
            if r.random() < .5:
                q.text_run([list("page")], r.choice([0, 10]), r.choice([0, 10]), f, 10)
            if r.random() < .2:
                q.broken = r.choice([b"null", b"42", b"<< >>", b"<< /Type /Page >>", b"[ ]", b"<< /Type /Page /MediaBox [0 0 0 0] /Contents 3 0 R /Resources 1 0 R >>"])
    elif k == 8:
        # Type 3 fonts with odd matrices.
        for i in range(4):
            g = Font(b"T%d" % i, kind="type3", fontmatrix=tuple(r.choice([0, .001, -.001, 1, 1e-9, 1000]) for _ in range(4)) + (0, 0), width=r.choice([0, 500, -500, 100000]))
            for c in "abc":
                p.glyph(c, 50 + 30 * i, 100, g, 10)
    elif k == 9:
        # Lines in all directions and writing modes, mixed.
        fs = [Font(b"V", kind="cidv"), Font(b"H", kind="cid"), f]
        for _ in range(80):
            p.glyph(r.choice("abcd-"), r.randint(0, 40) * 10, r.randint(0, 40) * 10, r.choice(fs), r.choice([10, 10, 30]), r.randint(0, 3))
    elif k == 10:
        # Negative widths and sizes, mirrored text.
        for i in range(20):
            p.op(b"BT /F0 %d Tf %d 0 0 %d %d %d Tm %d Tz (abc) Tj ET" % (r.choice([10, -10, 0]), r.choice([1, -1, 0]), r.choice([1, -1, 0]), r.randint(0, 400), r.randint(0, 400), r.choice([100, -100, 0, 1])))
        d.fontkey(f)
        for c in "abc":
            f.code(c)
    elif k == 11:
        # Very many small things.
        for _ in range(r.choice([200, 1500])):
            p.op(b"%d %d 1 1 re f" % (r.randint(0, 400), r.randint(0, 400)))
        for _ in range(300):
            p.glyph(r.choice("ab"), r.randint(0, 400), r.randint(0, 400), f, 5)
    elif k == 12:
        # Skewed and turned text by arbitrary angles.
        for _ in range(30):
            p.op(b"BT /F0 10 Tf %s Tm (abc) Tj ET" % b" ".join(b"%.3f" % r.uniform(-1, 1) for _ in range(4)) + b"")
            p.op(b"BT /F0 10 Tf %.3f %.3f %.3f %.3f %d %d Tm (abc) Tj ET" % (*(r.uniform(-2, 2) for _ in range(4)), r.randint(0, 400), r.randint(0, 400)))
        d.fontkey(f)
        for c in "abc":
            f.code(c)
    elif k == 13:
        # Images and inline images with broken dictionaries.
        for _ in range(10):
            p.op(r.choice([b"BI /W 0 /H 0 /CS /G /BPC 8 ID EI", b"BI /W 100000 /H 100000 /IM true ID \x00 EI", b"BI /W -1 /H 1 /CS /RGB /BPC 8 ID abc EI", b"BI ID EI", b"/Im Do", b"/NoSuch Do",
                           b"BI /W 2 /H 2 /CS /I /BPC 1 /F /LZW ID \xff\xff\xff EI", b"q 0 0 0 0 0 0 cm /Im Do Q", b"q 1e20 0 0 1e20 0 0 cm BI /W 1 /H 1 /CS /G /BPC 8 ID \x80 EI Q"]))
        p.image(10, 10, 50, 50)
    elif k == 14:
        # Only marks, hyphens, and math symbols.
        for _ in range(80):
            p.glyph(r.choice(chaos.MARKS + ["-", "∑", "∫", "(", "•", "*", "1", "†"]), r.randint(2, 38) * 10, r.choice([100, 104, 112, 200]), f, r.choice([10, 5, 20]))
    else:
        # A long paragraph of one-character lines, and one with hyphens everywhere.
        for i in range(r.choice([40, 120])):
            p.text_run([list(r.choice(["-", "a-", "--", "x", "1."]))], 20, 10 + i * 3, f, r.choice([2, 3]))
    return d


STRUCT = [
    (rb"/Kids \[([^\]]*)\]", lambda r, m: b"/Kids [%s]" % r.choice([b"", m.group(1) + b" 1 0 R", b"1 0 R 1 0 R", b"999 0 R", b"null", m.group(1) * 2])),
    (rb"/Count \d+", lambda r, m: b"/Count %s" % r.choice(EXTREME[:18])),
    (rb"/MediaBox \[[^\]]*\]", lambda r, m: b"/MediaBox [%s]" % r.choice([b"0 0 0 0", b"", b"0 0 612", b"612 792 0 0", b"0 0 1e10 1e10", b"a b c d", b"0 0 -5 -5", b"-10 -10 20 20", b"0 0 100000000 5"])),
    (rb"/Rotate \d+", lambda r, m: b"/Rotate %s" % r.choice([b"45", b"-90", b"450", b"99999999999", b"1.5", b"/x", b"-270", b"720", b"90"])),
    (rb"/Contents \d+ 0 R", lambda r, m: r.choice([b"", b"/Contents []", b"/Contents 1 0 R", b"/Contents [%s]" % (m.group(0)[10:] * 3), b"/Contents 999 0 R", b"/Contents 5"])),
    (rb"/Resources \d+ 0 R", lambda r, m: r.choice([b"", b"/Resources << >>", b"/Resources 1 0 R", b"/Resources null"])),
    (rb"/Encoding /[A-Za-z-]+", lambda r, m: b"/Encoding /%s" % r.choice([b"NoSuch", b"Identity-V", b"Identity-H", b"WinAnsiEncoding", b"MacExpertEncoding"])),
    (rb"/ToUnicode \d+ 0 R", lambda r, m: r.choice([b"", b"/ToUnicode /Identity-H", b"/ToUnicode 1 0 R"])),
    (rb"/FontMatrix \[[^\]]*\]", lambda r, m: b"/FontMatrix [%s]" % r.choice([b"0 0 0 0 0 0", b"1 0 0 1 0 0", b"", b"-1 0 0 -1 0 0", b"1e10 0 0 1e10 0 0"])),
    (rb"/FontDescriptor \d+ 0 R", lambda r, m: r.choice([b"", b"/FontDescriptor 1 0 R", b"/FontDescriptor << >>"])),
    (rb"/Subtype /Type[013]", lambda r, m: b"/Subtype /%s" % r.choice([b"Type0", b"Type1", b"Type3", b"TrueType", b"MMType1", b"Foo", b"CIDFontType0"])),
    (rb"/BBox \[[^\]]*\]", lambda r, m: b"/BBox [%s]" % r.choice([b"0 0 0 0", b"1 2", b"1e20 1e20 -1e20 -1e20", b"400 400 0 0"])),
    (rb"/Widths \[[^\]]*\]", lambda r, m: b"/Widths [%s]" % r.choice([b"", b"1e20 " * 256, b"-500 " * 256, b"0 " * 256, b"/a 1 /b"])),
    (rb"/FirstChar \d+", lambda r, m: b"/FirstChar %s" % r.choice(EXTREME[:14])),
    (rb"/Length \d+", lambda r, m: b"/Length %s" % r.choice(EXTREME[:18])),
    (rb"/Root \d+ 0 R", lambda r, m: b"/Root %d 0 R" % r.randint(0, 9)),
    (rb"/Size \d+", lambda r, m: b"/Size %s" % r.choice(EXTREME[:18])),
    (rb"/Type /Page ", lambda r, m: b"/Type /%s " % r.choice([b"Pages", b"Foo", b"Page"])),
    (rb"startxref\n\d+", lambda r, m: b"startxref\n%s" % r.choice(EXTREME[:18])),
    (rb"trailer\n<<", lambda r, m: b"trailer\n<< /Encrypt %s" % r.choice([b"1 0 R", b"<< /Filter /Standard /V 1 /R 2 /O (x) /U (y) /P -4 >>", b"null", b"<< >>"])),
]


KEYED = re.compile(rb"/([A-Z][A-Za-z0-9]*) (-?[0-9.]+(?: 0 R)?|/[A-Za-z0-9-]+|\[[^\[\]]*\])(?=[ />\n])")


def other_value(r, v):
    """A value of another type or none."""
    return r.choice([b"", b"null", b"true", b"(x)", b"/Foo", b"[]", b"[ 1 ]", b"<< >>", b"<61>", b"1.5", b"-1", b"0", b"7", b"1 0 R", b"999 0 R", b"[ %s ]" % v])


def any_key(r, data):
    """Drops any entry of a dictionary, or gives it a value of another type."""
    ms = list(KEYED.finditer(data))
    if not ms:
        return data
    if r.random() < .5:
        # Every key as likely as any other.
        k = r.choice(sorted({m.group(1) for m in ms}))
        ms = [m for m in ms if m.group(1) == k]
    m = r.choice(ms)
    v = other_value(r, m.group(2)) if r.random() < .6 else b""
    return data[:m.start()] + (b"/%s %s" % (m.group(1), v) if v else b"") + data[m.end():]


def structure(r, data):
    for _ in range(r.choice([1, 1, 2, 4])):
        if r.random() < .4:
            data = any_key(r, data)
            continue
        pat, f = r.choice(STRUCT)
        ms = list(re.finditer(pat, data))
        if ms:
            m = r.choice(ms)
            data = data[:m.start()] + f(r, m) + data[m.end():]
    return data


def options(r, ctx):
    a = []
    if r.random() < .6:
        a += ["--format", r.choice(["txt", "txt-extended", "jsonl", "jsonl"])]
    for _ in range(r.choice([0, 0, 1, 3])):
        a += ["--role", r.choice(serial.ROLES)]
    for _ in range(r.choice([0, 0, 1, 3])):
        a += ["--type", r.choice(serial.TYPES + ["lines"])]
    if r.random() < .25:
        for s in r.sample(SKIPS, r.choice([1, 1, 1, 2, 4, 13])):
            a.append("--skip-" + s)
    if r.random() < .25:
        lv = r.choice(["trace", "debug", "info", "warn", "error", "TRACE", "nonsense"])
        a += ["--verbosity", lv]
        ctx.seen("log level trace", lv.lower() == "trace")
    for s in r.sample(DEBUGS, r.choice([0, 0, 0, 1, 3, 13])):
        a.append("--debug-" + s)
    if r.random() < .1:
        a += ["--log-page-filter", r.choice(["1", "2", "99", "0", "-1"])]
        ctx.seen("a page filter")
    for x in ("control-characters", "semantic-roles", "no-scripts", "no-dehyphenation"):
        if r.random() < .08:
            a.append("--" + x)
    if r.random() < .1:
        a.append("--print-running-times")
        ctx.seen("running times")
    if r.random() < .35:
        a += ["--visualization-path", ctx.path("vis.pdf")]
        a += ["--visualize-" + v for v in (VIS if r.random() < .5 else r.sample(VIS, r.randint(0, 4)))]
        ctx.seen("visualization")
    return a


def case(ctx):
    r = ctx.rng
    k = ctx.idx % 10
    if k == 0:
        what, data = "ordinary", base(r).build()
    elif k in (1, 2):
        d = base(r)
        d.compress = False
        what, data = "damaged bytes", damage_bytes(r, d.build())
    elif k in (3, 4, 5):
        d = base(r)
        d.compress = False
        what, data = "damaged tokens", damage_tokens(r, d.build())
    elif k in (6, 7):
        what, data = "hostile content", hostile(r, ctx).build()
    elif k == 8:
        if r.random() < .6:
            what, data = "hostile font", fontdoc(r, damage_font(r)).build()
        else:
            d = base(r)
            what, data = "hostile structure", structure(r, d.build())
    else:
        if r.random() < .7:
            what, data = "hostile structure", structure(r, base(r).build())
        else:
            what = "no pdf"
            data = r.choice([b"", b"%PDF-1.4", b"\n" * 2000, bytes(r.randint(0, 255) for _ in range(r.choice([1, 100, 5000]))), b"%PDF-1.4\n1 0 obj\n<<>>\nendobj\ntrailer << /Root 1 0 R >>", b"{\"a\": 1}\n" * 100,
                             b"%PDF-1.7\nxref\n0 1\n0000000000 65535 f \ntrailer\n<< /Size 1 /Root 5 0 R /Prev 9 >>\nstartxref\n9\n%%EOF"])
    opts = options(r, ctx) if ctx.idx != 6 else []
    pdf = ctx.write("in.pdf", data)
    ctx.files["options.txt"] = " ".join(opts).encode()
    argv = [ctx.bins["cli"]] + opts + [pdf]
    env = {"PPP_STUB_SEED": str(ctx.idx), "PPP_STUB_MODEL": r.choice(["hash", "hash", "seq", "style"])}
    if r.random() < .4:
        argv.append(ctx.path("out.txt"))
    rc, out, err = ctx.run(argv, env=env, timeout=TIMEOUT)
    ctx.seen(what)
    verdict(ctx, rc, out, err, opts)
    ctx.ok((data, tuple(opts)))
    ctx.sample("%s, %d bytes, %s: status %s, %d bytes of output" % (what, len(data), " ".join(o for o in opts if not o.startswith("/")), rc, len(out)))


BAD = (b"ERROR: AddressSanitizer", b"runtime error:", b"terminate called", b"Assertion `", b"AddressSanitizer:DEADLYSIGNAL", b"AddressSanitizer: ", b"UndefinedBehaviorSanitizer")


def verdict(ctx, rc, out, err, opts):
    if rc == 0 and not any(b in err for b in BAD):
        ctx.seen("status 0")
        ctx.seen("some text", len(out) > 20)
        return
    if b"An error occurred: " in err and b"parsing the command-line options" not in err:
        # An exception from within the extraction.
        ctx.fail("exception", "%s: status %s: %s" % (" ".join(opts), rc, err[-600:].decode("utf-8", "replace")))
        return
    if rc is not None and 0 < rc < 126 and not any(b in err for b in BAD):
        ctx.seen("error status")
        return
    # Failures inside of Poppler that the tool has no part in are not judged: no frame of the tool but the calls that open and show the document.
    frames = re.findall(rb"#\d+ 0x[0-9a-f]+ (?:in )?([^\n]*)", err)
    own = [f for f in frames if b"src/" in f]
    if rc is not None and frames and b"libpoppler" in frames[min(len(frames) - 1, 0)] and own and all(b"PdfParsing.cpp" in f or b"main" in f or b"PdfToTextPlusPlus" in f or b"PdfDocumentVisualization" in f
                                                                                                          for f in own) and not any(b"TextOutputDev" in f for f in own):
        ctx.seen("failure inside of Poppler")
        ctx.inconclusive.append("case %d: failure inside of Poppler: %s" % (ctx.idx, frames[0][:200].decode("utf-8", "replace")))
        return
    ctx.crash(rc, err)
