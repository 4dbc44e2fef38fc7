"""Text utilities, compared with references that are written from the documented behaviour."""
import json, re
import unitio as U

PROGRAMS = ["unit"]
N = {"quick": 2000, "thorough": 20000}
RULE = "one call with the given strings; non-trivial: the string is not empty"
MUST_SEE = ["split", "wsplit", "ends-true", "ends-false", "upper-true", "upper-false", "random", "escape-control", "escape-plain", "escape-bytes",
            "shorten-long", "shorten-short", "strip", "strip-blank", "wrap-multi", "wrap-long-word", "wrap-newline", "join-empty", "join"]
ALNUM = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
WS = " \t\r\n\f\v"


def text(r, n=None):
    n = r.choice([0, 1, 2, 3, 8, 30, 120, 400]) if n is None else n
    k = r.random()
    if k < .3:
        al = "ab  \n"
    elif k < .5:
        al = "abcXYZ .,;!?) 019  \t\n"
    elif k < .7:
        al = "".join(map(chr, range(1, 0x80)))
    else:
        al = "aé ß漢😀\x01\x1f\x7f\x80\u2028\ufeff\uffff\"\\/\n\t\b\f\r "
    return "".join(r.choice(al) for _ in range(n))


def ref_split(b, d):
    out, cur = [], b""
    for i in range(len(b)):
        c = b[i:i + 1]
        if c in d:
            if cur:
                out.append(cur)
            cur = b""
        else:
            cur += c
    return out + ([cur] if cur else [])


def ref_wrap(s, width, indent):
    w, pre, out = width - indent, b" " * indent, []
    for par in s.split(b"\n"):
        while len(par) > w:
            # As many words as fit; a word that is longer than a line gets its own line.
            p = par.rfind(b" ", 0, w + 1)
            if p < 0:
                p = par.find(b" ")
                if p < 0:
                    break
            out.append(pre + par[:p])
            par = par[p + 1:]
        out.append(pre + par)
    return b"\n".join(out)


def case(ctx):
    r = ctx.rng
    lines, exp = [], []

    def add(line, fn):
        lines.append(line)
        exp.append(fn)

    for _ in range(12):
        b = text(r).encode()
        if r.random() < .2:
            b = bytes(r.randint(1, 255) for _ in range(r.randint(0, 40)))
        d = r.choice([None, WS, ",", ",; ", "ab", ""])

        def f(ans, b=b, d=d):
            g = [U.us(x) for x in ans.split()]
            dd = [bytes([c]) for c in (WS if d is None else d).encode()]
            w = ref_split(b, dd)
            ctx.seen("split")
            ctx.check(g == w, "split", lambda: "splitting %r at %r: %r, expected %r" % (b, d, g, w))
        add("split " + U.hs(b) + ("" if d is None else " " + U.hs(d)), f)
    for _ in range(8):
        s = text(r)
        d = r.choice([None, ",", "ab "])

        def f(ans, s=s, d=d):
            g = [U.uw(x) for x in ans.split()]
            w = [x for x in re.split("[" + re.escape(WS if d is None else d) + "]", s) if x]
            ctx.seen("wsplit")
            ctx.check(g == w, "wsplit", lambda: "splitting %r at %r: %r, expected %r" % (s, d, g, w))
        add("wsplit " + U.hw(s) + ("" if d is None else " " + U.hs(d)), f)
    for _ in range(10):
        s = (text(r, r.randint(0, 5)) + r.choice(list("?!.);,a: ") + ["", "é", "。"])).encode()
        d = r.choice([None, None, "a", ":,", ""])

        def f(ans, s=s, d=d):
            w = bool(s) and s[-1:] in [bytes([c]) for c in ("?!.);" if d is None else d).encode()]
            ctx.seen("ends-true" if w else "ends-false")
            ctx.check((ans == "1") == w, "sentence-end", lambda: "endsWithSentenceDelimiter(%r, %r) = %s" % (s, d, ans))
        add("ends " + U.hs(s) + ("" if d is None else " " + U.hs(d)), f)
    for c in r.sample(range(1, 256), 12) + [65, 90, 97, 64, 91]:
        b = bytes([c]) + text(r, 3).encode()

        def f(ans, b=b):
            w = 65 <= b[0] <= 90
            ctx.seen("upper-true" if w else "upper-false")
            ctx.check((ans == "1") == w, "upper", lambda: "startsWithUpper(%r) = %s" % (b, ans))
        add("upper " + U.hs(b), f)
    add("upper s", lambda ans: ctx.check(ans == "0", "upper", "startsWithUpper of the empty string = %s" % ans))
    # Random strings.
    got = {}
    for al in (None, "ab", "x", "0123456789"):
        for _ in range(6):
            n = r.choice([0, 1, 3, 8, 200])
            p = r.choice(["", "word-", "tb-", "é"])

            def f(ans, n=n, p=p, al=al):
                g = U.us(ans)
                ok = g.startswith(p.encode()) and len(g) == len(p.encode()) + n
                body = g[len(p.encode()):].decode("latin-1")
                ctx.seen("random")
                ctx.check(ok and all(c in (al or ALNUM) for c in body), "random", lambda: "createRandomString(%d, %r, %r) = %r" % (n, p, al, g))
                got.setdefault(al, []).append(body)
            add("rnd %d %s" % (n, U.hs(p)) + ("" if al is None else " " + U.hs(al)), f)
        # The whole alphabet is used, and strings are not repeated.

        def f(ans, al=al):
            s = U.us(ans).decode("latin-1")
            if len(s) == 4000:
                ctx.check(set(s) == set(al or ALNUM), "random-alphabet", lambda: "4000 random characters of %r: unused: %r" % (
                    al, sorted(set(al or ALNUM) - set(s))))
        add("rnd 4000 s" + ("" if al is None else " " + U.hs(al)), f)
    ids = []
    for _ in range(50):
        add("rnd 8 s", lambda ans: ids.append(ans))
    for _ in range(12):
        s = text(r)
        b = s.encode("utf-8")
        if r.random() < .2:
            b = bytes(r.randint(0, 255) for _ in range(r.randint(1, 30)))

        def f(ans, b=b):
            g = U.us(ans)
            try:
                t = b.decode()
            except UnicodeDecodeError:
                ctx.seen("escape-bytes")
                t = None
            ctx.check(not any(c < 0x20 for c in g), "escape", lambda: "escapeJson(%r) = %r contains a control character" % (b, g))
            try:
                v = json.loads('"' + g.decode("latin-1") + '"').encode("latin-1")
            except (ValueError, UnicodeEncodeError) as e:
                v = None
            ctx.check(v == b, "escape", lambda: "escapeJson(%r) = %r does not stand for the string" % (b, g))
            ctx.seen("escape-control" if any(c < 0x20 for c in b) else "escape-plain")
        add("esc " + U.hs(b), f)
    for _ in range(8):
        b = text(r).encode()
        n = r.choice([None, 0, 1, 5, len(b), max(0, len(b) - 1), len(b) + 1, 40])

        def f(ans, b=b, n=n):
            g, m = U.us(ans), 40 if n is None else n
            w = b if len(b) <= m else b[:m] + b"..."
            ctx.seen("shorten-long" if len(b) > m else "shorten-short")
            ctx.check(g == w, "shorten", lambda: "shorten(%r, %r) = %r" % (b, n, g))
        add("shorten " + U.hs(b) + ("" if n is None else " %d" % n), f)
    for _ in range(10):
        b = (r.choice(["", " ", "\t\n ", " \v\f\r"]) + text(r, r.choice([0, 0, 1, 5, 20])) + r.choice(["", "  ", "\n"])).encode()

        def f(ans, b=b):
            g, w = U.us(ans), b.strip(WS.encode())
            ctx.seen("strip-blank" if not w else "strip")
            ctx.check(g == w, "strip", lambda: "strip(%r) = %r" % (b, g))
        add("strip " + U.hs(b), f)
    for _ in range(14):
        k = r.random()
        if k < .5:
            s = " ".join("x" * r.choice([1, 2, 3, 7, 12, 40]) for _ in range(r.randint(0, 25)))
            s = "".join("\n" if c == " " and r.random() < .15 else c for c in s)
        else:
            s = text(r)
        b, w = s.encode(), r.choice([5, 10, 20, 40, 100])
        ind = r.choice([0, 0, 2, 4, w - 1])

        def f(ans, b=b, w=w, ind=ind):
            g, e = U.us(ans), ref_wrap(b, w, ind)
            ctx.seen("wrap-multi" if g.count(b"\n") else "wrap-single")
            if any(len(x) > w for x in g.split(b"\n")):
                ctx.seen("wrap-long-word")
            if b"\n" in b:
                ctx.seen("wrap-newline")
            ctx.check(g == e, "wrap", lambda: "wrap(%r, %d, %d) = %r, expected %r" % (b, w, ind, g, e))
        add("wrap %s %d %d" % (U.hs(b), w, ind), f)
    for _ in range(8):
        v = [text(r, r.choice([0, 0, 1, 4])).encode() for _ in range(r.choice([0, 1, 2, 3, 8]))]
        sep = r.choice([b", ", b"", b"|", b"\n"])

        def f(ans, v=v, sep=sep):
            g, w = U.us(ans), sep.join(v)
            ctx.seen("join-empty" if b"" in v else "join")
            ctx.check(g == w, "join", lambda: "join(%r, %r) = %r" % (v, sep, g))
        add("join %s %s" % (U.hs(sep), " ".join(U.hs(x) for x in v)), f)
    for line, f, a in zip(lines, exp, U.calls(ctx, lines)):
        f(a)
        ctx.ok(line)
        ctx.sample("%s -> %s" % (line[:150], a[:100]))
    ctx.check(len(set(ids)) == len(ids), "random-repeated", lambda: "random strings are repeated: %r" % ids)
