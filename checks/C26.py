"""The logger: which messages appear, in which order and in which form; the log of the steps and of the tool."""
import calendar, collections, re, time
import serial
import unitio as U
from pdfgen import Doc, Font
from checks.C27 import OPT

PROGRAMS = ["unit", "rec", "cli"]
N = {"quick": 900, "thorough": 8000}
RULE = "one logger with its history of settings and messages (non-trivial: at least one message), or one run on a document with a choice of levels, steps and pages"
MUST_SEE = ["step: " + s for s in ["parsing"] + [x for x in OPT if x not in ("fonts", "reading-order", "roles", "dehyphenation")]] + ["tool", "tool: page filter", "tool: messages", "pages", "steps", "levels", "shown", "hidden-level", "hidden-page", "unpaged-with-filter", "level-changed", "filter-changed", "pause"]
LV = ["TRACE", "DEBUG", "INFO", "WARN", "ERROR"]
RX = re.compile(r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)\.(\d{3})\t- ((?:\x1b\[[0-9;]*m)*)([A-Z]+):( *)((?:\x1b\[[0-9;]*m)*)( *)(.*)")


PIPE = ["parsing"] + [x for x in OPT if x not in ("fonts", "roles", "dehyphenation")] + ["roles", "dehyphenation"]
MASK = re.compile(r"\b([a-z]+-)[A-Za-z0-9]{8}\b|(?<=\bid: )\w+|0x[0-9a-f]+")


def document(r):
    """A few pages with words of their own, and something for each step on them."""
    d = Doc()
    f, g = Font(b"CMR10", width=500), Font(b"CMBX10", width=500, weight=700, flags=32 + (1 << 18))
    n = r.choice([1, 2, 3])
    for k in range(n):
        p = d.page(w=300, h=300)
        a = "jqz"[k]
        for i in range(r.randint(1, 4)):
            ws = ["".join(r.choice("aeiou") + a for _ in range(r.randint(1, 3))) for _ in range(r.randint(1, 4))]
            p.text_run([list(w) for w in ws] + ([[("e", "\u0301"), a]] if r.random() < .4 else []) + ([list(a + "u-")] if r.random() < .3 else []), 30, 40 + 13 * i, r.choice([f, f, g]), 10)
        if r.random() < .4:
            p.text_run([["2" + a][0:1]], 90, 36, f, 6)
        if r.random() < .4:
            p.text_run([["\u2211"]], 200, 100, f, 12)
            p.text_run([[a]], 201, 109, f, 5)
        if r.random() < .4:
            p.path([(30, 150), (200, 150)])
        if r.random() < .4:
            p.push_clip(50, 170, 100, 200)
            p.image(51, 171, 99, 199)
            p.pop()
        for i in range(r.choice([0, 3])):
            p.text_run([list(a + "oi" + a)], 30, 220 + 12 * i, f, 10)
            p.text_run([list(a + "ou" + a)], 200, 220 + 12 * i, f, 10)
    return d, n


def messages(out):
    """The messages of a log: (level, text); what follows a message on lines of its own belongs to it."""
    res = []
    for l in out.decode("utf-8", "replace").split("\n"):
        m = RX.fullmatch(l)
        if m:
            res.append([m.group(4), MASK.sub(r"\1#", m.group(8))])
        elif res:
            res[-1][1] += "\n" + MASK.sub(r"\1#", l)
    return [(l, t.rstrip("\n")) for l, t in res]


def pipeline(ctx):
    """The log of the extraction."""
    r = ctx.rng
    d, n = document(r)
    data = d.build()
    pdf = ctx.write("in.pdf", data)
    env = {"PPP_STUB_MODEL": "const:0"}

    def rec(*args):
        rc, out, err = ctx.run([ctx.bins["rec"], pdf, ctx.path("ev"), "--stages=final"] + list(args), env=env)
        if not ctx.check(rc == 0, "status", lambda: "%s: status %s: %s" % (args, rc, err[-1500:].decode("utf-8", "replace"))):
            return []
        return messages(out)
    i = ctx.idx // 9
    kind = ["pages", "steps", "levels", "tool", "tool"][i % 5]
    full = rec("--level=1")
    if kind == "pages":
        # Each message is either logged for all pages or for exactly one; the words of a page occur only in messages for this page.
        per = {q: rec("--level=1", "--log-page=%d" % q) for q in range(1, n + 2)}
        cnt = {q: collections.Counter(m) for q, m in per.items()}
        for m, c in collections.Counter(full).items():
            t = sum(cnt[q][m] for q in per) - n * cnt[n + 1][m]
            ctx.check(t == c, "filtered messages", lambda: "%r: logged %d times, and %s times for the pages" % (m, c, [cnt[q][m] for q in per]))
        for q, ms in per.items():
            it = iter(full)
            ctx.check(all(m in it for m in ms), "order of messages", lambda: "the messages for page %d are not in the order of the messages for all pages" % q)
            for k in range(n):
                bad = next((m for m in ms if k + 1 != q and re.search('"[^" ]*%s' % "jqz"[k], m[1])), None)
                ctx.check(bad is None, "page of message", lambda: "logged for page %d, but about page %d: %r" % (q, k + 1, bad))
        ctx.check(len(per[n + 1]) <= len(full), "filtered messages", "")
        for q in (0, -1):
            ctx.check(q or rec("--level=1", "--log-page=0") == full, "no filter", "with the filter 0, not all messages are logged")
        ctx.sample("%d messages, for the pages: %s" % (len(full), [len(x) for x in per.values()]))
    elif kind == "steps":
        # The log is made up of the logs of the steps.
        one = {x: rec("--log=" + x) for x in PIPE}
        al = [m for x in PIPE for m in one[x]]
        ctx.check(al == full, "log of the steps", lambda: "the logs of the steps have %s messages, the log of all steps %d; the first that differ: %s" % (
            {x: len(y) for x, y in one.items()}, len(full), next(((x, y) for x, y in zip(al, full) if x != y), None)))
        for x in PIPE:
            ctx.seen("step: " + x, len(one[x]))
        ctx.sample("%d messages: %s" % (len(full), {x: len(y) for x, y in one.items()}))
    elif kind == "levels":
        more = rec("--level=0")
        for lv in range(5):
            got = rec("--level=%d" % lv)
            e = [m for m in more if LV.index(m[0]) >= lv]
            ctx.check(got == e, "levels", lambda: "at the level %s, %d of %d messages are logged; expected %d" % (LV[lv], len(got), len(more), len(e)))
        ctx.sample("%d messages" % len(more))
    else:
        S = sorted({PIPE[(i // 5 * 2 + i) % len(PIPE)]} | set(r.sample(PIPE, r.choice([0, 0, 1, 3])))) if r.random() < .9 else []
        q = r.choice([None, None, 0, 1, n, n + 1])
        lv = r.choice([None, None, None, "error", "warn", "info", "debug", "trace", "ERROR", "WARN", "INFO", "DEBUG", "TRACE"])
        opts = [["--debug-" + ("pdf-parsing" if x == "parsing" else OPT[x])] for x in S] + ([] if q is None else [["--log-page-filter", str(q)]]) + ([] if lv is None else [["--verbosity", lv]])
        r.shuffle(opts)
        opts = [x for o in opts for x in o]
        exp = rec("--level=%d" % LV.index((lv or "error").upper()), *(["--log=" + ",".join(S)] if S else []), *([] if q is None else ["--log-page=%d" % q]))
        outs = {}
        for o in (opts, []):
            rc, out, err = ctx.run([ctx.bins["cli"], *o, pdf, *([ctx.path("o.txt")] if o else [])], env=env)
            if not ctx.check(rc == 0, "status of the tool", lambda: "%s: status %s: %s" % (o, rc, err[-1500:].decode("utf-8", "replace"))):
                return
            if o:
                got = messages(out)
                i = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
                ctx.check(got == exp, "log of the tool", lambda: "%s: %d messages; expected %d; message %d: %s; expected %s" % (o, len(got), len(exp), i, got[i:i + 1], exp[i:i + 1]))
                ctx.check(bool(got) or out == b"", "log of the tool", lambda: "%s: %r" % (o, out[:300]))
                with open(ctx.path("o.txt"), "rb") as fh:
                    outs[1] = fh.read()
                ctx.seen("tool: messages", len(got) > 0)
            else:
                outs[0] = out
        ctx.check(len(outs) < 2 or outs[0] == outs[1], "text with a log", lambda: "%s: wrote %r; without a log %r" % (opts, outs[1][:300], outs[0][:300]))
        ctx.seen("tool: page filter", bool(q) and len(exp) > 0)
        ctx.sample("%s: %d messages" % (" ".join(opts), len(exp)))
    ctx.seen(kind)
    ctx.ok((kind, data))


def case(ctx):
    if ctx.idx % 9 == 4:
        pipeline(ctx)
        return
    r = ctx.rng
    lines, exp = [], []
    t0 = time.time()
    for _ in range(25):
        lv, pf, pause = r.randint(0, 4), r.choice([-1, 0, 1, 2, 3]), 0
        ops, want = ["%d %d" % (lv, pf)], []
        for k in range(r.choice([1, 3, 10, 30])):
            x = r.random()
            if x < .1:
                lv = r.randint(0, 4)
                ops.append("L %d" % lv)
                ctx.seen("level-changed")
            elif x < .2:
                pf = r.choice([-1, 0, 1, 2, 3, 10])
                ops.append("F %d" % pf)
                ctx.seen("filter-changed")
            else:
                nap = r.choice([0] * 60 + [3, 7])
                if nap:
                    ops.append("S %d" % nap)
                pause += nap
                l, p = r.randint(0, 4), r.choice([-1, 0, 1, 2, 3, 10])
                m = "m%d-%d" % (k, r.randint(0, 999)) + r.choice(["", " a b", " \"é\""])
                ops.append("M %d %d %s" % (l, p, U.hs(m)))
                if l < lv:
                    ctx.seen("hidden-level")
                elif pf > 0 and p > 0 and p != pf:
                    ctx.seen("hidden-page")
                else:
                    if pf > 0 and p <= 0:
                        ctx.seen("unpaged-with-filter")
                    ctx.seen("shown")
                    want.append((LV[l], m, pause))
        lines.append("log " + " ".join(ops))
        exp.append(want)
    ans = U.calls(ctx, lines)
    t1 = time.time()
    colors, good, bad = {}, [], []
    for line, want, a in zip(lines, exp, ans):
        out = U.us(a).decode()
        got, stamps = [], []
        for l in out.split("\n")[:-1]:
            m = RX.fullmatch(l)
            if not m:
                ctx.fail("form", "a log line has not the documented form: %r" % l)
                continue
            t = calendar.timegm(time.strptime(m.group(1), "%Y-%m-%d %H:%M:%S"))
            ctx.check(t0 - 5 <= t <= t1 + 5, "timestamp", lambda: "timestamp %r at %r" % (l, time.gmtime(t1)))
            got.append((m.group(4), m.group(8)))
            stamps.append(t * 1000 + int(m.group(2)))
            # Only the name of the level is formatted: the text of the message is plain.
            ctx.check(not m.group(3) or m.group(6).endswith("\x1b[0m"), "color", lambda: "the formatting of the level is not switched off: %r" % l)
            colors.setdefault(m.group(4), set()).add(m.group(3))
        ctx.check(out == "" or out.endswith("\n"), "form", lambda: repr(out[-50:]))
        ctx.check(got == [w[:2] for w in want], "messages", lambda: "%s:\n  printed %r\n  expected %r" % (line[:300], got, want))
        for i in range(1, min(len(stamps), len(want))):
            # The time of each message is the time at which it was logged (but the clock may be set in the meantime: some may be wrong).
            nap = want[i][2] - want[i - 1][2]
            ctx.seen("pause", nap > 0)
            if nap:
                (good if stamps[i] - stamps[i - 1] >= nap - 1 else bad).append("%d ms passed between %s and %s, according to their times %d ms" % (
                    nap, want[i - 1], want[i], stamps[i] - stamps[i - 1]))
        ctx.ok(line)
        ctx.sample("%s -> %d of the messages" % (line[:150], len(got)))
    ctx.check(len(bad) < 2 or len(bad) < len(good), "timestamp", lambda: "; ".join(bad[:3]))
    ctx.check(all(len(v) == 1 for v in colors.values()), "color", lambda: "a level is shown in different ways: %r" % colors)
