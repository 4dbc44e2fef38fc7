"""The framework of the checks: runs cases in parallel, records what the monitors observed, matches violations with the known findings,
writes the evidence and prints the verdict.

A check is a module checks/<id>.py with
  TITLE, RULE         strings for the evidence
  PROGRAMS            names of the programs it needs (see build.PROGRAMS)
  N = {"quick": n, "thorough": m}
  case(ctx)           runs case number ctx.idx, with the random generator ctx.rng (seeded by the seed, the check and the case number)
Everything a case does is a function of (seed, tier, case number), so that a violation is replayed by running the case again.
"""
import collections, concurrent.futures, hashlib, importlib, json, multiprocessing, os, random, shutil, subprocess, sys, tempfile, time, traceback

import build, model

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "LC_ALL": "C.UTF-8", "TZ": "UTC"}
TIMEOUT = float(os.environ.get("PPP_TIMEOUT", "60"))


class Harness(Exception):
    """Something is wrong with the machinery (not with the code under test)."""


class Stop(Exception):
    """Ends a case (after a failure was recorded)."""


class Ctx:
    def __init__(self, pid, tier, seed, idx, bins, tmp):
        self.pid, self.tier, self.seed, self.idx, self.bins, self.tmp = pid, tier, seed, idx, bins, tmp
        self.rng = random.Random("%s:%s:%d:%d" % (pid, "t" if tier == "thorough" else "q", seed, idx))
        self.fails = []       # (key, message)
        self.tags = collections.Counter()   # what the monitors observed
        self.cases = set()    # digests of the distinct non-trivial cases
        self.evals = 0
        self.samples = []
        self.files = {}       # files to be kept for a replay
        self.inconclusive = []

    # --- verdicts -------------------------------------------------------------------------------------------------------------
    def fail(self, key, msg):
        if len(self.fails) < 20:
            self.fails.append((key, str(msg)[:1500]))

    def check(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return cond

    def seen(self, tag, n=1):
        self.tags[tag] += n

    def ok(self, digest, n=1):
        """Reports an evaluated, non-trivial case; digest identifies it."""
        self.evals += n
        self.cases.add(hashlib.sha256(repr(digest).encode()).hexdigest()[:16])

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    # --- running programs -----------------------------------------------------------------------------------------------------
    def path(self, name):
        return os.path.join(self.tmp, name)

    def write(self, name, data):
        with open(self.path(name), "wb") as f:
            f.write(data)
        self.files[name] = data
        return self.path(name)

    def run(self, argv, env=None, stdin=None, timeout=None, cwd=None, uid=None):
        """Runs a program; returns (returncode, stdout, stderr), all bytes. A hang is retried once with twice the time; then None is returned
        as the return code."""
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})
        t = timeout or TIMEOUT
        for attempt in (1, 2):
            try:
                p = subprocess.run(argv, input=stdin, capture_output=True, timeout=t * attempt, env=e, cwd=cwd or self.tmp, user=uid)
                return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired:
                pass
        return None, b"", b"timeout"

    def rec(self, pdf, stages="all", skip=None, outs=(), vis=None, env=None, name="in", quiet=False, variant="rec"):
        """Runs the recorder. pdf: bytes or Doc. Returns (stages, status) or stops the case if the program crashed."""
        data = pdf if isinstance(pdf, bytes) else pdf.build()
        f = self.write(name + ".pdf", data)
        ev = self.path(name + ".ev")
        argv = [self.bins[variant], f, ev, "--stages=" + stages]
        if skip:
            argv.append("--skip=" + skip)
        for o in outs:
            argv.append("--out=" + o)
        if vis:
            argv.append("--vis=" + vis)
        rc, out, err = self.run(argv, env=env)
        self.last = (rc, out, err)
        if rc in (95, 96, 97, 98, 99):
            raise Harness("recorder usage: %s" % argv)
        if rc not in (0, 10):
            self.crash(rc, err, argv)
            raise Stop()
        st, status = model.load(ev)
        return st, status

    def output(self, path):
        """The content of a file that the program was asked to write."""
        if not self.check(os.path.isfile(path), "not written", lambda: "%s was not written" % os.path.relpath(path, self.tmp)):
            raise Stop()
        with open(path, "rb") as f:
            return f.read()

    def crash(self, rc, err, argv=None):
        if rc is None:
            self.fail("hang", "the program did not terminate within %d s (twice)" % TIMEOUT)
            return
        self.fail("crash:" + crash_key(err), "the program ended with status %s: %s" % (rc, err.decode("utf-8", "replace")[-1800:]))


def crash_key(err):
    """Identifies a crash by the kind of the error and the innermost function of the code under test."""
    import re
    t = err.decode("utf-8", "replace")
    kind = "unknown"
    m = re.search(r"runtime error: ([^\n]*)", t)
    if m:
        kind = re.sub(r"-?[0-9.]+(e[+-]?\d+)?|0x[0-9a-f]+", "N", m.group(1))[:80]
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", t)
    if m:
        kind = m.group(1)
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", t)
    if m:
        kind = "uncaught " + m.group(1)
    m2 = re.search(r"(Assertion `[^']*' failed|Error: attempt to|__n < this->size)", t)
    if m2 and kind == "unknown":
        kind = m2.group(1)[:80]
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (?:/\S*?/)?(src/\S+?):\d+", t):
        fn = re.sub(r"\(.*", "", m.group(1))
        break
    return kind + "@" + fn


def _one(args):
    pid, tier, seed, idx, bins = args
    mod = importlib.import_module("checks." + pid)
    tmp = tempfile.mkdtemp(prefix="ppp-%s-%d-" % (pid, idx), dir=os.path.join(build.BUILD, "tmp"))
    ctx = Ctx(pid, tier, seed, idx, bins, tmp)
    t0 = time.time()
    harness = None
    try:
        mod.case(ctx)
    except Stop:
        pass
    except (Harness, OSError, MemoryError, NotImplementedError):
        harness = traceback.format_exc()
    except Exception:
        # The recorded events could not be interpreted by the oracle.
        ctx.fail("uninterpretable", "the recorded state is not consistent: " + traceback.format_exc()[-1200:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    r = dict(idx=idx, time=time.time() - t0, fails=ctx.fails, tags=ctx.tags, cases=ctx.cases, evals=ctx.evals, samples=ctx.samples, harness=harness,
             inconclusive=ctx.inconclusive, files=ctx.files if ctx.fails else {})
    return r


def known_findings(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid and x["status"] == "finding"]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay", help="the replay directory that a violation names")
    ap.add_argument("--case", type=int, action="append")
    ap.add_argument("-n", type=int)
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args(argv)
    if a.replay:
        with open(os.path.join(a.replay, "replay.json")) as f:
            d = json.load(f)
        a.pid, a.tier, a.seed, a.case = d["property"], d["tier"], d["seed"], [d["case"]]
    t0 = time.time()
    pid = a.pid
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + pid)
    try:
        bins = build.build_named("san", mod.PROGRAMS)
        for variant, names in getattr(mod, "VARIANTS", {}).items():
            bins.update({variant + "-" + k: v for k, v in build.build_named(variant, names).items()})
    except build.BuildError as e:
        print("the code under test could not be built:\n%s" % e)
        return 2
    tb = time.time() - t0
    os.makedirs(os.path.join(build.BUILD, "tmp"), exist_ok=True)
    if hasattr(mod, "prepare"):
        mod.prepare(a.tier, a.seed, bins)
    n = a.n or mod.N[a.tier]
    idxs = a.case if a.case else list(range(n))
    times = []
    tags, cases, evals, samples, fails, harness, inconcl = collections.Counter(), set(), 0, [], [], [], []
    with multiprocessing.get_context("fork").Pool(min(a.j, len(idxs))) as pool:
        for r in pool.imap_unordered(_one, [(pid, a.tier, a.seed, i, bins) for i in idxs], chunksize=1):
            tags += r["tags"]
            times.append((r["time"], r["idx"]))
            cases |= r["cases"]
            evals += r["evals"]
            if r["idx"] < 40 or not samples:
                samples += [(r["idx"], s) for s in r["samples"]]
            if r["harness"]:
                harness.append((r["idx"], r["harness"]))
            inconcl += r["inconclusive"]
            for k, m in r["fails"]:
                fails.append((r["idx"], k, m, r["files"]))
    fails.sort(key=lambda x: (x[0], x[1]))
    # A check that observed nothing of what it is about decides nothing.
    missing = []
    if not a.case and not a.n:
        for t in getattr(mod, "MUST_SEE", ()):
            if tags[t] == 0:
                missing.append(t)
    known = known_findings(pid)
    hit, viol = {}, []
    for idx, k, m, files in fails:
        kf = next((x for x in known if x["key"] == k), None)
        if kf:
            hit[k] = kf
        else:
            viol.append((idx, k, m, files))
    wall = time.time() - t0
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(cases), "rule": mod.RULE,
                       "samples": [s for _, s in sorted(samples, key=lambda x: x[0])[:6]] or ["-"],
                       "runs": len(idxs), "observed": dict(sorted(tags.items())), "build_s": round(tb, 1),
                       "inconclusive": inconcl[:10]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 1), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.case:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    for k, x in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
    print("%s [%s, seed %d]: %d evaluations, %d distinct non-trivial cases, %d cases run, %.1f s (build %.1f s)" % (
        pid, a.tier, a.seed, evals, len(cases), len(idxs), wall, tb))
    if os.environ.get("PPP_TIMES"):
        print("slowest cases: %s; sum %.1f s" % (", ".join("%d: %.1f s" % (i, t) for t, i in sorted(times, reverse=True)[:12]), sum(t for t, _ in times)))
    print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(tags.items())))
    rc = 0
    if viol:
        seen = {}
        for idx, k, m, files in viol:
            if k in seen:
                seen[k] += 1
                continue
            seen[k] = 1
            if len(seen) > 8:
                continue
            d = os.path.join(build.BUILD, "replay", pid, hashlib.sha256(k.encode()).hexdigest()[:10])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "replay.json"), "w") as f:
                json.dump({"property": pid, "tier": a.tier, "seed": a.seed, "case": idx, "key": k, "message": m,
                           "how": "python3 /verif/check.py %s --replay %s" % (pid, d)}, f, indent=1)
            for name, data in files.items():
                with open(os.path.join(d, os.path.basename(name)), "wb") as f:
                    f.write(data)
            print("  case %d: %s: %s" % (idx, k, m))
            print("VIOLATION property=%s replay=%s" % (pid, d))
        print("%d failed observations, %d different kinds" % (len(viol), len(seen)))
        rc = 1
    elif harness:
        print("ERROR of the machinery in case %d:\n%s" % harness[0])
        rc = 2
    elif missing:
        print("INCONCLUSIVE: not observed: %s" % ", ".join(missing))
        rc = 3
    return rc
