"""Builds the code under test (/repo's working tree) with sanitizers, together with the harness programs in
/verif/harness. Objects are cached by content in /verif/build (not committed), so that nothing is compiled twice."""
import concurrent.futures, glob, hashlib, os, subprocess, sys, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PPP_REPO", "/repo")
BUILD = os.environ.get("PPP_VERIF_BUILD", os.path.join(VERIF, "build"))
GUARD = "PPP_VERIF_HOOKS"

MODELS = os.path.join(REPO, "resources/models/2021-08-30_model-3K-documents")
COMMON = ["-std=c++20", "-w", "-include", "algorithm", "-include", "cstring", "-I" + os.path.join(VERIF, "harness/stub"),
          "-I/usr/include/poppler", "-I" + os.path.join(REPO, "src"),
          '-DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR=(getenv("PPP_MODELS") ? getenv("PPP_MODELS") : "%s")' % MODELS, "-include", "cstdlib",
          '-DPROGRAM_NAME="pdftotext++"', '-DPROGRAM_DESCRIPTION="Extracts text from PDF files."',
          '-DPROGRAM_USAGE="pdftotext++ [options] <pdf-file> [<output-file>]"', '-DVERSION="0.0-verif"',
          "-D" + GUARD, "-D_GLIBCXX_ASSERTIONS", "-pthread"]
VARIANTS = {
    # The sanitized build: AddressSanitizer + UndefinedBehaviorSanitizer + assertions of the standard library.
    "san": dict(cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                      "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"],
                link=["-fsanitize=address,undefined", "-fno-sanitize=vptr"]),
    # A plain build.
    "plain": dict(cxx="g++", flags=["-O0", "-g1"], link=[]),
    # An optimized build by the other compiler (for Valgrind, and for the runs with different memory layouts).
    "opt": dict(cxx="g++", flags=["-O2", "-g1", "-fno-inline-functions"], link=[]),
    # ThreadSanitizer is not used: the program has no threads.
}
LIBS = ["-lpoppler", "-lutf8proc", "-lboost_program_options", "-lpthread"]


class BuildError(Exception):
    pass


def _headers_digest():
    h = hashlib.sha256()
    files = sorted(f for f in glob.glob(REPO + "/src/**/*", recursive=True) + glob.glob(VERIF + "/harness/**/*.h", recursive=True)
                   if os.path.isfile(f) and not f.endswith(".cpp"))
    for f in files:
        h.update(os.path.basename(f).encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()


def sources():
    return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))


def _compile(cxx, flags, src, obj):
    tmp = obj + ".tmp%d" % os.getpid()
    p = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, p.stderr[-4000:]))
    os.rename(tmp, obj)
    return obj


def build(variant, programs):
    """programs: {name: (harness sources relative to /verif/harness, [filter of repo sources] or "all" or "all-with-main")}.
    Returns {name: path of the binary}."""
    v = VARIANTS[variant]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        hd = _headers_digest()
        flags = v["flags"] + COMMON
        base = hashlib.sha256((v["cxx"] + "\0".join(flags) + hd).encode())
        jobs = {}

        def obj_for(src):
            h = base.copy()
            h.update(open(src, "rb").read())
            h.update(src.encode())
            o = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (variant, os.path.basename(src).replace("+", "p"), h.hexdigest()[:20]))
            if not os.path.exists(o):
                jobs[o] = src
            return o

        need = {}
        for name, (hs, rs) in programs.items():
            objs = [obj_for(os.path.join(VERIF, "harness", s)) for s in hs]
            for s in sources():
                rel = os.path.relpath(s, REPO + "/src")
                is_main = rel == "pdftotext++.cpp"
                if rs == "all":
                    take = not is_main
                elif rs == "all-with-main":
                    take = True
                else:
                    take = any(rel.startswith(x) for x in rs)
                if take:
                    objs.append(obj_for(s))
            need[name] = objs
        # Compile the slowest files first.
        order = sorted(jobs.items(), key=lambda kv: -_cost(kv[1]))
        with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("PPP_JOBS", "8"))) as ex:
            futs = [ex.submit(_compile, v["cxx"], flags, s, o) for o, s in order]
            for f in futs:
                f.result()

        out = {}

        def link(name, objs):
            h = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:20]
            b = os.path.join(BUILD, "bin", "%s-%s-%s" % (variant, name, h))
            if not os.path.exists(b):
                p = subprocess.run([v["cxx"]] + v["link"] + objs + ["-o", b + ".tmp"] + LIBS, capture_output=True, text=True)
                if p.returncode != 0:
                    raise BuildError("linking %s failed:\n%s" % (name, p.stderr[-4000:]))
                os.rename(b + ".tmp", b)
            return b
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            futs = {n: ex.submit(link, n, o) for n, o in need.items()}
            for n, f in futs.items():
                out[n] = f.result()
        return out


def _cost(src):
    b = os.path.basename(src)
    big = {"pdftotext++.cpp": 9, "TextBlocksDetection.cpp": 8, "TextBlocksDetectionUtils.cpp": 8, "PdfDocumentVisualization.cpp": 7,
           "PdfParsing.cpp": 7, "PdfFontInfoParser.cpp": 7, "rec.cpp": 6, "unit.cpp": 10}
    return big.get(b, 1)


PROGRAMS = {
    "rec": (["rec.cpp"], "all"),
    "cli": (["nohook.cpp"], "all-with-main"),
    "unit": (["unit.cpp", "nohook.cpp"], "all"),
}


def build_named(variant, names):
    return build(variant, {n: PROGRAMS[n] for n in names})


if __name__ == "__main__":
    import time
    t = time.time()
    names = sys.argv[2:] or list(PROGRAMS)
    for n, p in build_named(sys.argv[1] if len(sys.argv) > 1 else "san", names).items():
        print(n, p)
    print("%.1fs" % (time.time() - t))
