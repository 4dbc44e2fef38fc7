"""The outcome of the command-line tool: its status, its messages and the files that it writes, with good and bad options and under faults."""
import os, re, stat, sys
import layout, serial
from pdfgen import Doc, Font
from chaos import document as chaosdoc

PROGRAMS = ["rec", "cli"]
VARIANTS = {"opt": ["cli"]}
N = {"quick": 120, "thorough": 1500}
RULE = "one run of the tool with a scenario (a choice of options, files and a fault); distinct: by scenario and document"
MUST_SEE = ["good: stdout", "good: file", "good: new folders", "good: replaced file", "good: stdout by name", "good: visualization", "good: running times", "good: no locale",
            "option", "help", "full help", "version", "input: missing", "input: folder", "input: empty", "input: no PDF", "input: encrypted", "input: below a file", "input: dangling link",
            "input: empty path", "input: not readable", "near --role", "near --type", "near --format", "output: full device", "output: full stdout", "output: closed stdout", "output: folder", "output: below a file", "output: size limit",
            "output: folder not writable", "output: file not writable", "visualization: full device", "visualization: folder", "visualization: missing folder", "visualization: size limit",
            "visualization: folder not writable", "model: missing vocabulary", "traced", "write observed"]
ASSUMPTIONS = ["faults are provided by the system: full devices, file size limits, folders and files without permission (for an unprivileged user), missing and unsuitable files"]
NOBODY = 65534
BAD = [["--nonsense"], ["-x"], ["--format", "nonsense"], ["--format", ""], ["--format=TXT"], ["--role", "nonsense"], ["--role", "title,heading"], ["--type", "nonsense"], ["--type", "Words"],
       ["--type", ""], ["--log-page-filter", "abc"], ["--log-page-filter", "1.5"], ["--format", "txt", "--format", "jsonl"], ["--visualize-words=yes"], ["--visualization-path", "a", "--visualization-path", "b"],
       ["--verbosity", "info", "--verbosity", "warn"], ["--skip-everything"], ["--role", "heading", "--role", "headings"]]
NAMES = [("--role", serial.ROLES), ("--type", serial.TYPES), ("--format", ["txt", "txt-extended", "jsonl"])]


def near_name(r):
    """A value that is almost one of the allowed ones: shortened, extended, in other letters, padded, or that of another option."""
    opt, names = r.choice(NAMES)
    while True:
        n = r.choice(names)
        v = r.choice([lambda: n[:r.randint(1, len(n) - 1)], lambda: n + r.choice(["s", "x", " ", "-", "\n", n]), lambda: n[r.randint(1, len(n) - 1):], n.upper, n.capitalize, lambda: " " + n,
                      lambda: n.replace("-", r.choice(["_", " ", ""])), lambda: str(names.index(n)), lambda: n + "," + r.choice(names), lambda: r.choice(r.choice(NAMES)[1]),
                      lambda: n[:-1] + chr(ord(n[-1]) + 1)])()
        if v not in names and v:
            return [opt, v] if r.random() < .7 else [opt + "=" + v]
AT_END = [["--format"], ["--role"], ["--type"], ["--visualization-path"], ["--verbosity"], ["--log-page-filter"]]
VALID = [["--no-dehyphenation"], ["--verbosity", "error"], ["--no-scripts"], ["--skip-semantic-roles-prediction"], ["--type", "words"], ["--role", "heading"], ["--visualize-words"]]
GOOD = ["stdout", "file", "new folders", "replaced file", "stdout by name", "visualization", "running times", "no locale"]
INPUT = ["missing", "folder", "empty", "no PDF", "encrypted", "below a file", "dangling link", "empty path", "not readable"]
OUTPUT = ["full device", "full stdout", "closed stdout", "folder", "below a file", "size limit", "folder not writable", "file not writable"]
VIS = ["full device", "folder", "missing folder", "size limit", "folder not writable"]
SCEN = ["good: " + x for x in GOOD] * 2 + ["option"] * 8 + ["help", "full help", "version"] + ["input: " + x for x in INPUT] + ["output: " + x for x in OUTPUT] + ["visualization: " + x for x in VIS] + \
       ["model: missing vocabulary"]
WRITE = re.compile(r'\b(?:openat\([^,]*, |open\(|creat\(|unlink\(|unlinkat\([^,]*, |rename\(|renameat2?\([^,]*, |mkdir\(|mkdirat\([^,]*, |truncate\(|link\(|symlink\(|chmod\()"((?:[^"\\]|\\.)*)"(.*)')


def snapshot(d):
    """The contents of all files below a folder."""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            k = os.path.relpath(p, d)
            if os.path.islink(p):
                out[k] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[k] = "folder"
            else:
                with open(p, "rb") as f:
                    out[k] = f.read()
    return out


def touched(trace):
    """The paths that were opened for reading and for writing, created, removed or renamed (successful calls only)."""
    r, w = set(), set()
    for line in open(trace, encoding="utf-8", errors="replace"):
        m = WRITE.search(line)
        if not m or re.search(r"= -1 E", line) or "resumed" in line:
            continue
        call = line.split("(", 1)[0].split()[-1]
        reading = call in ("open", "openat") and not re.search(r"O_(WRONLY|RDWR|CREAT|TRUNC|APPEND)", m.group(2))
        (r if reading else w).add(re.sub(r"\\([0-7]{3})", lambda x: chr(int(x.group(1), 8)), m.group(1)).encode("latin-1", "replace").decode("utf-8", "replace"))
    return r, w


def document(r):
    d = layout.anydoc(r, r.randint(0, 6)) if r.random() < .6 else chaosdoc(r)
    p = d.page()
    p.text_run([list("some"), list("text")], 72, 100, Font(b"X", width=500), 10)
    return d


def encrypted(data):
    i = data.rindex(b"trailer\n<<")
    enc = b" /Encrypt << /Filter /Standard /V 1 /R 2 /O <" + b"41" * 32 + b"> /U <" + b"42" * 32 + b"> /P -4 >> /ID [<00><00>] "
    return data[:i + 10] + enc + data[i + 10:]


def case(ctx):
    r = ctx.rng
    doc = document(r)
    env = {"PPP_STUB_MODEL": r.choice(["hash", "seq"]), "PPP_STUB_SEED": str(ctx.idx)}
    data = doc.build()
    stages, status = ctx.rec(data, stages="final", env=env)
    if status:
        return
    st = stages["final"]
    os.chmod(ctx.tmp, 0o755)
    ctx.last_args = None
    picks = [SCEN[(ctx.idx * 5 + j) % len(SCEN)] for j in range(5)] if ctx.idx < 12 else [r.choice(SCEN) for _ in range(5)]
    for j, scen in enumerate(picks):
        scenario(ctx, r, st, data, env, scen, j)


def scenario(ctx, r, st, data, env, scen, j):
    d = ctx.path("s%d" % j)
    os.makedirs(os.path.join(d, "cwd"))
    os.chmod(d, 0o755)
    os.chmod(os.path.join(d, "cwd"), 0o777)
    P = lambda n: os.path.join(d, n)

    def put(n, b=b"old", mode=0o644):
        with open(P(n), "wb") as f:
            f.write(b)
        os.chmod(P(n), mode)
        return P(n)
    fmt = r.choice(["txt", "txt-extended", "jsonl"])
    pdf = put("in.pdf", data)
    args = ["--format", fmt]
    pos = [pdf]
    wrap, uid, envx = None, None, {}
    want = "good"           # what must happen: good, bad, or help
    out_file = vis_file = None
    allowed = set()         # what may be created or changed, relative to d
    rest = scen.split(": ")[-1]
    kind = scen.split(": ")[0]
    target = r.choice(["out.txt", "cwd/o", "a b.txt", "ü.txt"])

    if kind == "good" or kind == "model":
        if rest in ("file", "replaced file") or (rest in ("visualization", "running times", "no locale") and r.random() < .5):
            out_file = P(target)
            if rest == "replaced file":
                put(target, b"x" * r.choice([1, 300000]))
        elif rest == "new folders":
            target = r.choice(["new/out.txt", "new/er/st/o"])
            out_file = P(target)
        elif rest == "stdout by name":
            pos.append("-")
        if out_file and r.random() < .3:
            out_file = os.path.relpath(out_file, P("cwd"))
        if rest == "visualization":
            vis_file = P(r.choice(["v.pdf", "cwd/v.pdf"]))
            args += ["--visualization-path", vis_file] + r.choice([[], ["--visualize-words"], ["--visualize-text-blocks", "--visualize-segment-cuts"]])
        if rest in ("running times", "no locale"):
            args += ["--print-running-times"]
        if rest == "no locale":
            envx["LC_ALL"] = "xx_YY.UTF-8"
        if kind == "model":
            os.makedirs(P("models"))
            if r.random() < .5:
                n = r.choice(["bpe-vocab.tsv", "roles-vocab.tsv"])
                put("models/" + n, b"paragraph\t0\n")
            envx["PPP_MODELS"] = P("models")
            want = "bad"
    elif kind == "option":
        want = "bad"
        k = r.random()
        if k < .65:
            near = near_name(r) if r.random() < .5 else None
            if near:
                ctx.seen("near " + near[0].split("=")[0])
                args = near
            else:
                args = r.choice(BAD) if r.random() < .5 else args * (r.random() < .5) + r.choice([b for b in BAD if "--format" not in b])
        elif k < .8:
            args = r.choice(VALID)
            pos += [P("o"), P("p")]
        elif k < .9:
            pos = []
        else:
            pos += [P("o")] * (r.random() < .5)
            args = r.choice(VALID) + ["@end"] + r.choice(AT_END)
        if len(pos) == 1 and r.random() < .4:
            pos.append(put(target))
    elif kind in ("help", "full help", "version"):
        want = "help"
        args = [r.choice({"help": ["--help", "-h"], "full help": ["--full-help"], "version": ["--version", "-v"]}[kind])]
        if r.random() < .6:
            args += r.choice(VALID)
            r.shuffle(args) if len(args) == 2 else None
        pos = r.choice([[], [], [P("missing.pdf")], [pdf], [pdf, P("o")]])
    elif kind == "input":
        want = "bad"
        bad = {"missing": P("no.pdf"), "folder": P("cwd"), "below a file": P("in.pdf/x.pdf"), "empty path": ""}.get(rest)
        if rest == "empty":
            bad = put("e.pdf", b"")
        elif rest == "no PDF":
            bad = put("n.pdf", r.choice([b"Hello", b"%PDF-1.4\n", b"\0" * 2000, bytes(r.randrange(256) for _ in range(3000)).replace(b"obj", b""), b"<html>" * 500]))
        elif rest == "encrypted":
            bad = put("c.pdf", encrypted(data))
        elif rest == "dangling link":
            bad = P("l.pdf")
            os.symlink("nowhere.pdf", bad)
        elif rest == "not readable":
            bad = put("u.pdf", data, 0o000)
            uid = NOBODY
        pos = [bad]
        if r.random() < .5:
            pos.append(put("cwd/old.txt", mode=0o666) if r.random() < .5 else P("cwd/o.txt"))
        if r.random() < .3:
            args += ["--visualization-path", P("cwd/v.pdf"), "--visualize-words"]
    elif kind == "output":
        want = "bad"
        if rest == "full device":
            out_file = "/dev/full"
        elif rest == "full stdout":
            wrap = 'exec "$@" > /dev/full'
        elif rest == "closed stdout":
            wrap = 'exec "$@" >&-'
        elif rest == "folder":
            out_file = P("cwd")
        elif rest == "below a file":
            out_file = put("f") + r.choice(["/o.txt", "/x/o.txt"])
        elif rest == "size limit":
            args = ["--format", "jsonl"]
            out_file = P(target)
            allowed.add(target)
            wrap = "trap '' XFSZ; ulimit -f 1; exec \"$@\""
        elif rest == "folder not writable":
            os.makedirs(P("ro"))
            os.chmod(P("ro"), 0o555)
            out_file = P(r.choice(["ro/o.txt", "ro/x/o.txt"]))
            uid = NOBODY
        elif rest == "file not writable":
            out_file = put("cwd/ro.txt", mode=0o444)
            uid = NOBODY
    elif kind == "visualization":
        want = "bad"
        vis_file = {"full device": "/dev/full", "folder": P("cwd"), "missing folder": P("no/v.pdf"), "size limit": P("v.pdf"), "folder not writable": P("ro/v.pdf")}[rest]
        args += ["--visualization-path", vis_file, "--visualize-words", "--visualize-characters"]
        if rest == "size limit":
            allowed.add("v.pdf")
            wrap = "trap '' XFSZ; ulimit -f 2; exec \"$@\""
        elif rest == "folder not writable":
            os.makedirs(P("ro"))
            os.chmod(P("ro"), 0o555)
            uid = NOBODY
        elif r.random() < .4:
            out_file = P(target)
    if out_file and want != "help":
        pos.append(out_file)
    if kind in ("good", "visualization") and out_file and not out_file.startswith("/dev"):
        x = os.path.relpath(os.path.join(P("cwd"), out_file), d)
        while x:
            allowed.add(x)
            x = os.path.dirname(x)
        allowed.discard("cwd")
    if kind == "good" and vis_file:
        allowed.add(os.path.relpath(vis_file, d))

    end = []
    if "@end" in args:
        k = args.index("@end")
        args, end = args[:k], args[k + 1:]
    traced = wrap is None and uid is None and r.random() < .3
    before = snapshot(d)
    argv = [ctx.bins["opt-cli" if traced else "cli"]] + r.choice([args + pos, pos + args]) + end
    what = "%s: %s" % (scen, " ".join(a.replace(d, "…") for a in argv[1:]))
    full = argv
    if wrap:
        full = ["/bin/sh", "-c", wrap, "sh"] + argv
    if traced:
        full = ["strace", "-f", "-o", ctx.path("trace%d" % j), "-s", "4096", "-e", "trace=%file,open,openat,creat"] + full
    e = dict(env, HOME=P("cwd"), TMPDIR=P("cwd"), **envx)
    rc, out, err = ctx.run(full, env=e, cwd=P("cwd"), uid=uid)
    after = snapshot(d)
    text = err.decode("utf-8", "replace")
    if traced and "strace:" in text and "ptrace" in text:
        ctx.inconclusive.append("strace does not work here")
        return
    if rc is None or rc < 0 or rc >= 128 or "Sanitizer" in text or "runtime error" in text or rc in (99,):
        ctx.crash(rc, err)
        return
    if want == "good":
        ctx.check(rc == 0, "status: " + scen, lambda: "%s: ended with status %s: %s" % (what, rc, text[-800:]))
    elif want == "bad":
        ctx.check(rc != 0, "status: " + scen, lambda: "%s: ended with status 0; stdout %r, stderr %r" % (what, out[:200], text[-500:]))
        ctx.check(text.strip() != "", "message: " + scen, lambda: "%s: ended with status %s without a message" % (what, rc))
    else:
        ctx.check(rc == 0 and err == b"", "status: " + scen, lambda: "%s: ended with status %s: %s" % (what, rc, text[-500:]))
        o = out.decode("utf-8", "replace")
        need = ["0.0-verif"] if kind == "version" else ["--format", "--role", "--type", "--no-dehyphenation", "--visualization-path", "--visualize-words", "--verbosity", "--version", "--help"]
        if kind == "full help":
            need += ["--skip-words-detection", "--debug-pdf-parsing"]
        for n in need:
            ctx.check(n in o, "help text", lambda: "%s: %s is not mentioned in %r" % (what, n, o[:600]))
        if kind != "version":
            # The help lists the values that can be chosen.
            flat = " ".join(o.split())
            for label, values in (("Valid formats", ["txt", "txt-extended", "jsonl"]), ("Valid roles", serial.ROLES), ("Valid types", serial.TYPES)):
                m = re.search(label + r": ([a-z, -]+)\.", flat)
                ctx.check(m and sorted(m.group(1).split(", ")) == sorted(v.replace("_", "-") for v in values), "help text", lambda: "%s: the help says %r instead of %s" % (
                    what, m and m.group(0), values))
        ctx.check(kind != "help" or "--skip-words-detection" not in o, "help text", lambda: "%s: the help mentions the private options" % what)
    # What was written.
    dest = None
    if kind in ("good", "visualization") and rc is not None:
        if out_file:
            p = os.path.join(P("cwd"), out_file)
            dest = open(p, "rb").read() if os.path.isfile(p) else None
            ctx.check(dest is not None, "no output", lambda: "%s: the output file was not written" % what)
            std = out
        else:
            dest, std = out, b""
        if "--print-running-times" in args:
            m = re.search(rb"(\x1b\[[0-9;]*m)?Finished in ", std if out_file else dest)
            if ctx.check(m is not None, "no running times", lambda: "%s: no running times in %r" % (what, out[-300:])):
                rest = (std if out_file else dest)[m.start():]
                total = re.search(rb"Finished in ([\d.,]+) ms", rest)
                parts = [(x.decode(), int(re.sub(rb"[.,]", b"", y))) for x, y in re.findall(rb"^ \* ([^:]*): *([\d.,]+) ms", rest, re.M)]
                ctx.check(total and int(re.sub(rb"[.,]", b"", total.group(1))) == sum(y for _, y in parts), "sum of running times", lambda: "%s: %r" % (what, rest[-900:]))
                ctx.check(("Visualize" in dict(parts)) == bool(vis_file) and "Serialize" in dict(parts), "steps with running times", lambda: "%s: %r" % (what, parts))
                if out_file:
                    std = std[:m.start()]
                else:
                    dest = dest[:m.start()]
        ctx.check(std == b"", "stdout", lambda: "%s: wrote %r to stdout" % (what, std[:300]))
        if dest is not None:
            if fmt == "jsonl":
                serial.compare(ctx, serial.parse(dest, ctx), serial.records(st, serial.ROLES, serial.TYPES), what, ignore=("id", "word", "block"))
            else:
                exp = serial.plain(st, serial.ROLES, fmt == "txt-extended")
                ctx.check(dest == exp, "output: " + scen, lambda: "%s: wrote %r instead of %r" % (what, dest[:300], exp[:300]))
    elif want == "bad":
        ctx.check(out == b"", "stdout: " + kind, lambda: "%s: wrote %r to stdout" % (what, out[:300]))
    if kind == "good" and vis_file:
        ctx.check(os.path.isfile(vis_file) and open(vis_file, "rb").read()[:5] == b"%PDF-", "no visualization", lambda: "%s: no visualization was written" % what)
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k not in allowed)
    # Folders that were created for a file that could not be written are left.
    ctx.check(not changed, "other files", lambda: "%s: changed %s" % (what, changed))
    if traced:
        rd, wr = touched(ctx.path("trace%d" % j))
        ok = {os.path.normpath(P(k)) for k in allowed} | {"/dev/tty", "/dev/null"}
        other = [x for x in wr if os.path.normpath(os.path.join(P("cwd"), x)) not in ok and not (x == "/dev/full" and x in (out_file, vis_file))]
        ctx.check(not other, "other files", lambda: "%s: opened for writing: %s" % (what, other))
        if want == "help":
            ctx.check(not any(x.startswith(d) for x in rd), "file read", lambda: "%s: read %s" % (what, rd))
        ctx.seen("traced")
        ctx.seen("write observed", len(wr))
    ctx.seen(scen)
    ctx.seen("status %s" % rc)
    ctx.ok((scen, args, fmt, ctx.idx))
    ctx.sample("%s: status %s, %d bytes on stdout, %r" % (what, rc, len(out), text[:80]))
