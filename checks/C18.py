"""The same file and options always give the same result: runs with other memory layouts and contents, times, process ids, environments, compilers, verbosities and
earlier documents are compared; memcheck watches for uninitialized values; all ids are unique."""
import hashlib, os, re, subprocess
import build, chaos, layout
from checks import C01, C05, C06, C07, C09, C10
from pdfgen import Doc, Font

PROGRAMS = ["rec", "cli"]
VARIANTS = {"opt": ["rec", "cli"]}
N = {"quick": 70, "thorough": 3000}
RULE = "one pair of runs; distinct: by the document and what differs between the runs"
MUST_SEE = ["memory and time", "other compiler", "earlier document", "other path", "memcheck", "memcheck: visualization", "verbosity", "environment", "running times", "ids", "jsonl", "words", "blocks", "figures",
            "embedded fonts", "merged words"]
ASSUMPTIONS = ["the random generator of the recorder is seeded equally; ids are compared only for being unique", "errors that memcheck reports inside of Poppler are not judged"]
MEMCHECK = {"quick": 16, "thorough": 300}


def prepare(tier, seed, bins):
    """Builds the library that perturbs memory, time, and process id."""
    src = os.path.join(build.VERIF, "harness/shuffle.cpp")
    so = os.path.join(build.BUILD, "bin", "shuffle-%s.so" % hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    if not os.path.exists(so):
        subprocess.run(["g++", "-shared", "-fPIC", "-O1", src, "-o", so + ".tmp"], check=True)
        os.rename(so + ".tmp", so)
    bins["shuffle"] = so


def generate(r, k):
    k %= 9
    if k == 0:
        return chaos.document(r)
    if k == 1:
        m = chaos.Maker(r, npages=1)
        m.mathfont = Font(b"CMEX10", width=600)
        C05.formula(m)
        return m.doc
    if k == 2:
        return C07.structured(r)
    if k == 3:
        return C09.arrangement(r)
    if k == 4:
        return C10.styled(r)
    if k == 5:
        return C01.fontdoc(r)
    if k == 6:
        return layout.Article(r, pages=1, hyphens=True).doc
    if k == 7:
        return C06.rows(r)
    return layout.anydoc(r)


def small(r, k):
    """Small documents for memcheck, which is slow."""
    k %= 8
    d = Doc()
    p = d.page(w=400, h=400, rotate=r.choice([0, 0, 90, 180, 270]))
    f = Font(b"F", width=500)
    if k == 0:
        return C01.fontdoc(r)
    if k == 1:
        for i, t in enumerate(["some words hyphen-", "ated and more (a)", "1. item with a", "continuation x2"]):
            p.text_run([list(w) for w in t.split()], 30, 50 + 13 * i, f, 10)
        p.text_run([list("footnote")], 30, 300, f, 7)
    elif k == 2:
        for i in range(3):
            p.text_run([list("left"), list("part")], 30, 50 + 12 * i, f, 10)
            p.text_run([list("right"), list("side")], 230, 50 + 12 * i, f, 10)
    elif k == 3:
        p.image(30, 30, 60, 60)
        p.path([(10, 100), (300, 100)])
        p.op(b"q 40 180 200 100 re W n")
        p.path([(50, 130), (100, 180)])
        p.glyph("a", 60, 150, f, 10)
        p.image(110, 130, 30, 30)
        p.op(b"Q")
    elif k == 4:
        p.text_run([["e", "\u0301", "a"], ["\u0301", "o", "x"]], 30, 50, f, 10)
        p.text_run([list("10"), ["x"], ["2"]], 30, 80, f, 10)
        p.glyph("2", 37, 50 - 4, f, 6)
    elif k == 5:
        m = chaos.Maker(r, npages=1)
        m.mathfont = Font(b"CMEX10", width=600)
        C05.formula(m)
        return m.doc
    elif k == 6:
        g = Font(b"V", kind=r.choice(["cidv", "cid", "type3", "std"]), width=500)
        for i in range(12):
            p.glyph("abc-"[i % 4], 50 + 8 * i, 100, g, 10, i % 4)
        d.page(w=0, h=10)
        d.page(w=10, h=10)
    else:
        p.text_run([list("Title")], 100, 40, Font(b"Foo-Bold", width=500), 18)
        for i in range(5):
            p.text_run([list("text"), list("abc.")], 30 + 15 * (i == 0), 80 + 12 * i, f, 10)
    return d


def norm(path):
    """The recorded stages without the random ids."""
    with open(path, "rb") as f:
        data = f.read()
    return re.sub(rb'"id":"[^"]*"', b'"id":""', data)


def first_difference(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    s = re.findall(rb'"stage":"([a-z-]*)"', a[:n])
    return "in stage %s: %r / %r" % (s[-1].decode() if s else "?", a[max(0, n - 120):n + 80], b[max(0, n - 120):n + 80])


def canon(data):
    """Text in which random ids are replaced by their order of appearance."""
    m = {}
    return re.sub(rb'"(id|word|block)"\s*:\s*"([^"]*)"', lambda x: b'"%s":"%d"' % (x.group(1), m.setdefault(x.group(2), len(m))), data)


def memcheck(ctx, i):
    r = ctx.rng
    doc = small(r, i)
    pdf = ctx.write("in.pdf", doc.build())
    xml = ctx.path("vg.xml")
    argv = ["valgrind", "--xml=yes", "--xml-file=" + xml, "--leak-check=no", "--num-callers=30", "--trace-children=no"]
    if i % 2 == 0 or i % 8 == 3:
        argv += [ctx.bins["opt-rec"], pdf, ctx.path("vg.ev"), "--stages=" + ("all" if i % 4 else "final"), "--fresh"]
        for o in ("txt:*:*:" + ctx.path("o1"), "jsonl:*:*:" + ctx.path("o2"), "ext:*:*:" + ctx.path("o3")):
            argv.append("--out=" + o)
        if i % 8 >= 3:
            argv.append("--vis=" + ctx.path("vis.pdf"))
            ctx.seen("memcheck: visualization")
    else:
        argv += [ctx.bins["opt-cli"], "--format", r.choice(["jsonl", "txt-extended"]), "--verbosity", r.choice(["trace", "debug", "error"]), pdf, ctx.path("o.txt")]
    rc, out, err = ctx.run(argv, timeout=200)
    if rc is None:
        ctx.inconclusive.append("memcheck did not end in time")
        return
    ctx.seen("memcheck")
    with open(xml, "r", errors="replace") as f:
        t = f.read()
    if "</valgrindoutput>" not in t:
        ctx.fail("memcheck", "the program died: %s %s" % (rc, err[-1000:].decode("utf-8", "replace")))
        return
    for e in re.findall(r"<error>.*?</error>", t, re.S):
        kind = re.search(r"<kind>(.*?)</kind>", e).group(1)
        if kind.startswith("Leak_"):
            continue
        what = (re.search(r"<(?:what|text)>(.*?)</(?:what|text)>", e) or [None, ""])[1]
        frames = [(re.search(r"<obj>(.*?)</obj>", f), re.search(r"<fn>(.*?)</fn>", f)) for f in re.findall(r"<frame>.*?</frame>", e.split("</stack>")[0], re.S)]
        fs = [(o.group(1) if o else "", n.group(1) if n else "") for o, n in frames]
        inner = next((f for f in fs if not re.search(r"/libc\.so|libstdc|libm\.so|vgpreload|/ld-linux", f[0])), ("", ""))
        if "/opt-" in inner[0]:
            fn = next((re.sub(r"\(.*", "", n) for o, n in fs if "/opt-" in o and n.startswith(("ppp::", "main", "(anonymous namespace)::"))), "")
            ctx.fail("memcheck: %s in %s" % (kind, fn), "%s: %s: %s" % (kind, what, " < ".join(n for _, n in fs[:12])))
        else:
            ctx.inconclusive.append("memcheck: %s in %s" % (kind, inner))
    ctx.ok(("memcheck", i, ctx.files["in.pdf"]))


def case(ctx):
    nm = MEMCHECK[ctx.tier]
    if ctx.idx < nm:
        return memcheck(ctx, ctx.idx)
    r = ctx.rng
    doc = generate(r, ctx.idx)
    data = doc.build()
    pdf = ctx.write("in.pdf", data)
    env = {"PPP_STUB_MODEL": r.choice(["hash", "seq"]), "PPP_STUB_SEED": str(ctx.idx)}

    def run(argv, name, **kw):
        rc, out, err = ctx.run(argv, **kw)
        if rc != 0:
            ctx.fail("status", "%s ended with %s: %s" % (name, rc, err[-1500:].decode("utf-8", "replace")))
            return None
        return out

    # Recorded stages.
    ref = ctx.path("ref.ev")
    if run([ctx.bins["rec"], pdf, ref, "--stages=all", "--fresh"], "the recorder", env=env) is None:
        return
    a = norm(ref)
    import json
    for line in open(ref):
        d = json.loads(line)
        if d["stage"] == "exit":
            continue
        ids = [(k, x["id"]) for k in ("chars", "words", "lines", "blocks", "figures", "shapes", "graphics", "segments") for o, x in d[k].items()
               if not (k == "words" and x["pos"][0] == -1)]
        ctx.check(all(i for _, i in ids), "empty id", lambda: "in stage %s: %s without id" % (d["stage"], [k for k, i in ids if not i][:3]))
        n = {}
        for k, i in ids:
            n.setdefault(i, []).append(k)
        dup = [(i, k) for i, k in n.items() if len(k) > 1]
        ctx.check(not dup, "repeated id", lambda: "in stage %s: %s" % (d["stage"], dup[:4]))
        ctx.seen("ids", len(ids))
        for k in ("words", "blocks", "figures"):
            ctx.seen(k, len(d[k]))
        ctx.seen("merged words", sum(x["pos"][0] == -1 for x in d["words"].values()))
        ctx.seen("embedded fonts", sum(bool(f["glyphs"]) for f in d["fonts"].values()))
    shuffle = {"LD_PRELOAD": ctx.bins["shuffle"], "PPP_SHUFFLE": str(ctx.rng.randint(1, 10 ** 9))}
    others = [("other compiler", ctx.bins["opt-rec"], [], {}, pdf)]
    for i in range(2):
        others.append(("memory and time", ctx.bins["opt-rec"], [], dict(shuffle, PPP_SHUFFLE=str(r.randint(1, 10 ** 9)), MALLOC_PERTURB_=str(r.randint(1, 255)), X="y" * r.choice([1, 1000, 50000])), pdf))
    other = ctx.write("other.pdf", generate(r, r.randint(0, 8)).build())
    others.append(("earlier document", ctx.bins[r.choice(["rec", "opt-rec"])], ["--before=" + r.choice([other, other, pdf])], {}, pdf))
    copy = ctx.write("some other näme.bin", data)
    others.append(("other path", ctx.bins[r.choice(["rec", "opt-rec"])], [], {"ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=%d:max_malloc_fill_size=100000" % r.randint(0, 255)}, copy))
    for name, exe, args, e, f in others:
        ev = ctx.path("b.ev")
        if run([exe, f, ev, "--stages=all", "--fresh"] + args, "the recorder (%s)" % name, env=dict(env, **e)) is None:
            continue
        b = norm(ev)
        ctx.check(a == b, "different: " + name, lambda: "%s: %s" % (name, first_difference(a, b)))
        ctx.seen(name)
        ctx.ok((name, data))

    # The tool.
    fmt = r.choice(["txt", "txt-extended", "jsonl", "jsonl"])
    opts = ["--format", fmt]
    o1 = ctx.path("o1")
    if run([ctx.bins["cli"]] + opts + [pdf, o1], "the tool", env=env) is None:
        return
    t1 = canon(open(o1, "rb").read())
    ctx.seen("jsonl", fmt == "jsonl")
    runs = [("environment", {"TZ": r.choice(["Asia/Tokyo", "foo"]), "LC_ALL": r.choice(["C", "de_DE.UTF-8", "C.UTF-8", "POSIX"]), "LANG": "C", "HOME": "/nonexistent", "COLUMNS": "3", "NO_COLOR": "1"}, [], "stdout"),
            ("memory and time", dict(shuffle, MALLOC_PERTURB_="77"), [], "file"),
            ("verbosity", {}, ["--verbosity", r.choice(["trace", "debug", "info", "warn"])] + ["--debug-" + x for x in r.sample(C01.DEBUGS, 2)] + (["--log-page-filter", "1"] if r.random() < .5 else []), "file")]
    if r.random() < .4:
        runs.append(("running times", {}, ["--print-running-times"], "file"))
    for name, e, args, target in runs:
        exe = ctx.bins["opt-cli" if "LD_PRELOAD" in e else r.choice(["cli", "opt-cli"])]
        o2 = ctx.path("o2")
        out = run([exe] + opts + args + [pdf] + ([o2] if target == "file" else []), "the tool (%s)" % name, env=dict(env, **e))
        if out is None:
            continue
        t2 = canon(out if target == "stdout" else open(o2, "rb").read())
        ctx.check(t1 == t2, "output: " + name, lambda: "%s: %s" % (name, first_difference(t1, t2)))
        ctx.seen(name)
        ctx.ok(("tool", name, fmt, data))
    ctx.sample("document of %d bytes: %d bytes of recorded stages, %d bytes of %s, equal in all runs" % (len(data), len(a), len(t1), fmt))
