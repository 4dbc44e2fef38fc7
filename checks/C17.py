"""The filters by role and by type, and the choice of the format: exactly what was asked for is written."""
import os
import layout, serial
from pdfgen import Doc, Font

PROGRAMS = ["rec", "cli"]
N = {"quick": 70, "thorough": 2500}
RULE = "one run of the tool with a choice of format, roles and types; distinct: by the choice and the document"
MUST_SEE = ["jsonl", "txt", "txt-extended", "default format", "no role given", "one role", "several roles", "repeated role", "no type given", "one type",
            "several types", "something filtered", "nothing left", "each role", "types ignored", "not written", "option --no-scripts", "option --control-characters", "option --semantic-roles"]
IDS = ("id", "word", "block")


def options(ctx, env):
    """The other options that, by their descriptions, change the text that is written."""
    d = Doc()
    f, b = Font(b"CMR10", width=500), Font(b"CMBX10", width=560, weight=700)
    for n in range(2):
        p = d.page()
        p.text_run([list("Introduction")], 72, 80, b, 14)
        for i in range(8):
            p.text_run([list(w) for w in "here are some words that make up a text line".split()], 72, 120 + 12 * i, f, 10)
        p.text_run([list("wordx")], 72, 216, f, 10)
        p.text_run([list("7")], 98, 218, f, 7)
    stages, status = ctx.rec(d, stages="final", env=env, name="opt")
    st = stages["final"]
    pdf = ctx.path("opt.pdf")
    sub = any(c.sub or c.sup for c in st.chars.values() if c.text == "7")
    emph = any(k.emph for p in st.pages for k in st.get(p["blocks"]))
    rc, ref, err = ctx.run([ctx.bins["cli"], "--format", "txt", pdf], env=env)
    for opt, works, cond in (("--no-scripts", lambda out: b"7" not in out, sub), ("--control-characters", lambda out: b"\x01" in out and b"\x0c" in out, emph),
                             ("--semantic-roles", lambda out: len(out) > len(ref), True)):
        rc, out, err = ctx.run([ctx.bins["cli"], "--format", "txt", opt, pdf], env=env)
        if not ctx.check(rc == 0, "status", lambda: "%s: status %s: %s" % (opt, rc, err[-800:])):
            continue
        if out == ref:
            ctx.check(not cond, opt + " has no effect", lambda: "the output with %s is that without it" % opt)
        else:
            ctx.check(works(out), opt + " has a wrong effect", lambda: "the output with %s is %r" % (opt, out[:500]))
        ctx.seen("option " + opt, bool(cond))


def case(ctx):
    r = ctx.rng
    doc = layout.anydoc(r)
    env = {"PPP_STUB_MODEL": r.choice(["hash", "hash", "seq"]), "PPP_STUB_SEED": str(ctx.idx)}
    stages, status = ctx.rec(doc, stages="final", env=env)
    if status:
        return
    st = stages["final"]
    pdf = ctx.path("in.pdf")
    if ctx.idx == 0:
        # Text lines are a valid type: they must be written, too.
        rc, out, err = ctx.run([ctx.bins["cli"], "--format", "jsonl", "--type", "lines", pdf], env=env)
        if rc not in (0,):
            ctx.crash(rc, err)
        elif not out:
            ctx.fail("lines are not written", "--format jsonl --type lines writes nothing")
        ctx.seen("not written")
        options(ctx, env)
    for _ in range(4):
        fmt = r.choice([None, "txt", "txt-extended", "jsonl", "jsonl", "jsonl"])
        roles = [] if r.random() < .35 else [r.choice(serial.ROLES) for _ in range(r.choice([1, 1, 2, 3, 8]))]
        types = [] if r.random() < .35 else [r.choice(serial.TYPES) for _ in range(r.choice([1, 1, 2, 4]))]
        args = []
        if fmt:
            args += r.choice([["--format", fmt], ["--format=" + fmt]])
        for x in roles:
            args += r.choice([["--role", x], ["--role=" + x]])
        for x in types:
            args += r.choice([["--type", x], ["--type=" + x]])
        stdout = r.random() < .5
        target = ctx.path("out")
        if os.path.exists(target):
            os.remove(target)
        argv = [ctx.bins["cli"]] + r.choice([args + [pdf], [pdf] + args] if stdout else [args + [pdf, target], [pdf] + args + [target]])
        rc, out, err = ctx.run(argv, env=env)
        if rc != 0:
            ctx.fail("status", "%s ended with %s: %s" % (args, rc, err[-1500:].decode("utf-8", "replace")))
            continue
        data = out if stdout else ctx.output(target)
        if not stdout:
            ctx.check(out == b"", "output twice", lambda: "%s wrote %r to stdout although a file was given" % (args, out[:100]))
        rs = roles or serial.ROLES
        ts = set(types or serial.TYPES)
        ctx.seen(fmt or "default format")
        ctx.seen("no role given" if not roles else "repeated role" if len(set(roles)) < len(roles) else "one role" if len(roles) == 1 else "several roles")
        ctx.seen("no type given" if not types else "one type" if len(ts) == 1 else "several types")
        for x in set(roles):
            ctx.tags["role " + x] += 1
        if roles:
            ctx.seen("each role")
        if fmt == "jsonl":
            serial.compare(ctx, serial.parse(data, ctx), serial.records(st, rs, sorted(ts)), " ".join(args), ignore=IDS)
        else:
            exp = serial.plain(st, rs, fmt == "txt-extended")
            ctx.check(data == exp, "output: %s" % (fmt or "default"), lambda: "%s wrote %r instead of %r" % (args, data[:400], exp[:400]))
            ctx.seen("types ignored", bool(types))
        n = len(list(serial.blocks(st, rs)))
        m = len(list(serial.blocks(st, serial.ROLES)))
        ctx.seen("something filtered", 0 < n < m)
        ctx.seen("nothing left", m > 0 and n == 0)
        ctx.ok((ctx.idx, fmt, sorted(set(roles)), sorted(ts)))
        ctx.sample("%s: %d of %d blocks, %d bytes" % (" ".join(args), n, m, len(data)))
