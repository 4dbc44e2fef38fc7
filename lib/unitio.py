"""Calls the utility functions of the code under test via the unit harness (see harness/unit.cpp)."""
import fw


def hs(b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return "s" + b.hex()


def hw(s):
    return "s" + "".join("%08x" % ord(c) for c in s)


def us(h):
    assert h[0] == "s"
    return bytes.fromhex(h[1:])


def uw(h):
    return "".join(chr(int(h[1 + i:9 + i], 16)) for i in range(0, len(h) - 1, 8))


def hd(x):
    return float(x).hex() if x == x and abs(x) != float("inf") else repr(float(x))


def ud(s):
    return float(s) if s in ("nan", "inf", "-inf") else float.fromhex(s)


def elem(e):
    """e: (page, l, u, r, lo, rot, wmode)"""
    return "%d %s %s %s %s %d %d" % (e[0], hd(e[1]), hd(e[2]), hd(e[3]), hd(e[4]), e[5], e[6])


def calls(ctx, lines, **k):
    """Runs the calls (strings) in one process and returns the answers (strings, split at blanks where the caller wants)."""
    rc, out, err = ctx.run([ctx.bins["unit"]], stdin=("\n".join(lines) + "\n").encode(), **k)
    ans = out.decode("latin-1").split("\n")
    if rc != 0 or len(ans) < len(lines) + 1 or ans[len(lines)] != "END":
        n = max(0, len(ans) - 1)
        ctx.write("calls.txt", "\n".join(lines).encode())
        ctx.crash(rc, err)
        ctx.fail("call:" + (lines[n].split(" ")[0] if n < len(lines) else "?"), "the call did not return: %s" % (lines[n] if n < len(lines) else "?")[:600])
        raise fw.Stop()
    return ans[:len(lines)]
