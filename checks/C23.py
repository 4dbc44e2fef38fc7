"""Geometry and tolerant arithmetic: every result is compared with a reference that is computed from the definitions."""
import math
import serial
import unitio as U

PROGRAMS = ["unit"]
N = {"quick": 2000, "thorough": 20000}
RULE = "one call with the given arguments; non-trivial: all of them (results next to a tolerance are skipped)"
MUST_SEE = ["math", "round", "round-tie", "pair", "pos-rot0", "pos-rot1", "pos-rot2", "pos-rot3", "cmp-true", "cmp-false", "sort", "overlap", "names"]
TOL = 1e-4


def value(r):
    k = r.random()
    if k < .35:
        return r.randint(-50, 800) / 10
    if k < .6:
        return r.uniform(-100, 900)
    if k < .7:
        return float(r.randint(-5, 5))
    if k < .8:
        return r.choice([-1, 1]) * 10 ** r.uniform(-8, 9)
    if k < .85:
        return 0.0
    return r.choice([1e-4, 5e-5, 2e-4, .1, .25, .5, .75, 1.5, 2.5, -.5, -1.5, 100.0, 612.0, 792.0])


def elem(r, rot=None, like=None):
    if like and r.random() < .5:
        b = [x + r.choice([0, 0, 0, .05, -.05, 1e-5, -1e-5, .1, 5, -5, 40]) for x in like[1:5]]
    else:
        b = [value(r) for _ in range(4)]
    l, rr = sorted((b[0], b[2]))
    u, lo = sorted((b[1], b[3]))
    return (r.randint(1, 4), l, u, rr, lo, r.randint(0, 3) if rot is None else rot, r.randint(0, 1))


def near(a, b, s=1.0):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b), abs(s))


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def lt(a, b, t):
    """a < b by more than t; None: too close to tell."""
    return None if near(b - a, t, max(abs(a), abs(b))) else (b - a) > t


def le(a, b, t):
    return None if near(a - b, t, max(abs(a), abs(b))) else (a - b) <= t


def exact(a, b, t):
    return all(abs(x) < 2 ** 30 and x * 1024 == int(x * 1024) for x in (a, b, t))


def rotc(e):
    _, l, u, r, lo, rot, _ = e
    return [(l, u, r, lo), (u, r, lo, l), (r, lo, l, u), (lo, l, u, r)][rot]


def ratios(s1, e1, s2, e2):
    a, b = min(s1, e1), max(s1, e1)
    c, d = min(s2, e2), max(s2, e2)
    ov = max(0.0, min(b, d) - max(a, c))
    return (ov / (b - a) if b > a else 0.0, ov / (d - c) if d > c else 0.0)


def case(ctx):
    r = ctx.rng
    lines, exp = [], []

    def add(line, fn):
        lines.append(line)
        exp.append(fn)

    # Tolerant comparisons.
    for _ in range(60):
        t = r.choice([0.0, 1e-4, .1, .5, 1.0, 2.0, .25, abs(value(r))])
        a = value(r)
        b = r.choice([a, a + t, a - t, a + t * .99, a - t * .99, a + t * 1.01, a - t * 1.01, a + 5e-5, a - 2e-4, value(r), -a])
        c = r.choice([b + abs(value(r)), b, b - t, value(r)])

        def f(ans, a=a, b=b, c=c, t=t):
            want = []
            for tol in (t, TOL):
                ex = exact(a, b, tol) and exact(a, c, tol)
                sm = (b - a) > tol if ex else lt(a, b, tol)
                lg = (a - b) > tol if ex else lt(b, a, tol)
                eq = None if sm is None or lg is None else not sm and not lg
                eos = None if lg is None else not lg
                eol = None if sm is None else not sm
                lc = (a - c) > tol if ex else lt(c, a, tol)
                bt = None if sm is None or lc is None else not sm and not lc
                want += [eq, sm, lg, eos, eol, bt]
            for name, w, g in zip(["equal", "smaller", "larger", "equalOrSmaller", "equalOrLarger", "between"] * 2, want, ans):
                if w is None:
                    ctx.seen("skipped-next-to-tolerance")
                    continue
                ctx.seen("math")
                ctx.check((g == "1") == w, "math:" + name, lambda: "%s(%r, %r%s, tol %r / default) = %s" % (
                    name, a, b, ", %r" % c if name == "between" else "", t, g))
        add("math %s %s %s %s" % (U.hd(a), U.hd(b), U.hd(c), U.hd(t)), f)
    # Rounding.
    for _ in range(40):
        n = r.randint(0, 5)
        if r.random() < .35:
            k = r.randint(-2000, 2000)
            if n > 2:
                n = 0
            d = {0: k + .5, 1: k + r.choice([.25, .75, .5, 0.0]), 2: k + r.choice([.125, .375, .625, .875])}[n]
            tie = n in (0, 2) or d != round(d, 1)
        else:
            d, tie = value(r), False
            if abs(d) > 1e9:
                d = d / 1e6

        def f(ans, d=d, n=n, tie=tie):
            g = U.ud(ans)
            p = 10.0 ** n
            if tie:
                ctx.seen("round-tie")
                w = math.copysign(math.floor(abs(d) * p + .5), d) / p
                ctx.check(close(g, w), "round:tie", lambda: "round(%r, %d) = %r, expected %r (halves away from zero)" % (d, n, g, w))
                return
            ctx.seen("round")
            ctx.check(abs(g - d) <= .5 / p * (1 + 1e-9) + 1e-12 * abs(d), "round:distance", lambda: "round(%r, %d) = %r" % (d, n, g))
            ctx.check(abs(g * p - round(g * p)) <= 1e-6 + 4e-15 * abs(g * p), "round:decimals",
                      lambda: "round(%r, %d) = %r has more decimals" % (d, n, g))
        add("round %s %d" % (U.hd(d), n), f)
    for _ in range(10):
        v = [value(r) for _ in range(4)]
        if r.random() < .3:
            v[r.randrange(4)] = v[r.randrange(4)]

        def f(ans, v=v):
            g = [U.ud(x) for x in ans.split()]
            w = [min(v[:2]), min(v[:3]), min(v), max(v[:2]), max(v[:3]), max(v)]
            ctx.check(g == w, "minmax", lambda: "minimum/maximum of %r: %r, expected %r" % (v, g, w))
        add("minmax " + " ".join(U.hd(x) for x in v), f)
    for _ in range(25):
        v = [value(r) for _ in range(4)]
        k = r.random()
        if k < .2:
            v[2], v[3] = v[0], v[1]
        elif k < .35:
            v[2] = v[1]
        elif k < .45:
            v[1] = v[0]
        elif k < .5:
            v[3] = v[2]
        elif k < .7:
            a, b = sorted(v[:2])
            v[2], v[3] = r.uniform(a, b), r.uniform(a, b)

        def f(ans, v=v):
            g = [U.ud(x) for x in ans.split()]
            w = ratios(*v)
            ctx.seen("overlap")
            ctx.check(close(g[0], w[0]) and close(g[1], w[1]), "overlap", lambda: "overlap ratios of %r: %r, expected %r" % (v, g, w))
            ctx.check(all(0 <= x <= 1 + 1e-9 for x in g), "overlap-range", lambda: "overlap ratios of %r: %r" % (v, g))
        add("overlap " + " ".join(U.hd(x) for x in v), f)
    # Pairs of elements.
    for _ in range(40):
        a = elem(r)
        b = elem(r, like=a)
        tol = r.choice([0.0, .1, 1.0, 5.0, abs(value(r))])
        fa, fb = r.choice([("A", "A"), ("A", "B"), ("", "A"), ("x", "x"), ("Font", "Font2"), ("F", "f")])
        sa = r.choice([8.0, 9.5, 10.0, 12.0])
        sb = r.choice([sa, sa + tol, sa + tol * 1.2 + .01, 10.0, sa - tol * .5])

        def f(ans, a=a, b=b, tol=tol, fa=fa, fb=fb, sa=sa, sb=sb):
            *g, bits = ans.split()
            g = [U.ud(x) for x in g]
            xr, yr = ratios(a[1], a[3], b[1], b[3]), ratios(a[2], a[4], b[2], b[4])
            w = [None, None, xr[0], xr[1], yr[0], yr[1], max(xr), max(yr), a[1] - b[1], a[3] - b[3]]
            names = ["hgap", "vgap", "x-overlap1", "x-overlap2", "y-overlap1", "y-overlap2", "max-x-overlap", "max-y-overlap",
                     "left-offset", "right-offset"]
            # The gap: from the end of the first element to the start of the second one.
            for i, (s, e) in enumerate(((1, 3), (2, 4))):
                c1, c2 = b[s] - a[e], a[s] - b[e]
                if abs(abs(a[s] - b[s]) - TOL) < 1e-7 or abs(a[s] - b[s]) <= TOL:
                    ctx.check(close(g[i], c1) or close(g[i], c2), "pair:" + names[i], lambda: "%s of %r, %r: %r" % (names[i], a, b, g[i]))
                else:
                    w[i] = c1 if a[s] < b[s] else c2
            for nm, x, y in zip(names, g, w):
                if y is not None:
                    ctx.check(close(x, y), "pair:" + nm, lambda: "%s of %r, %r: %r, expected %r" % (nm, a, b, x, y))
            for nm, i, bit in zip(["equal-left", "equal-upper", "equal-right", "equal-lower"], (1, 2, 3, 4), bits):
                e = le(abs(a[i] - b[i]), 0.0, tol)
                if e is not None:
                    ctx.check((bit == "1") == e, "pair:" + nm, lambda: "%s(%r, %r, %r) = %s" % (nm, a, b, tol, bit))
            ctx.check((bits[4] == "1") == (fa == fb), "pair:equal-font", "%r %r %s" % (fa, fb, bits[4]))
            e = le(abs(sa - sb), 0.0, tol)
            if e is not None:
                ctx.check((bits[5] == "1") == e, "pair:equal-font-size", "%r %r %r %s" % (sa, sb, tol, bits[5]))
            ctx.seen("pair")
        add("pair %s %s %s %s %s %s %s" % (U.elem(a), U.elem(b), U.hd(tol), U.hs(fa), U.hs(fb), U.hd(sa), U.hd(sb)), f)
    for _ in range(16):
        a = elem(r)

        def f(ans, a=a):
            g = [U.ud(x) for x in ans.split()]
            rc = rotc(a)
            W, H = a[3] - a[1], a[4] - a[2]
            w = [W, H] + list(rc) + ([W, H] if a[5] in (0, 2) else [H, W])
            ctx.seen("pos-rot%d" % a[5])
            ctx.check(all(close(x, y) for x, y in zip(g, w)), "pos", lambda: "width, height and rotated coordinates of %r: %r, expected %r" % (a, g, w))
        add("pos " + U.elem(a), f)
    # Orders.
    for _ in range(30):
        a = elem(r)
        b = elem(r, like=a)
        if r.random() < .5:
            b = b[:5] + (a[5],) + b[6:]

        def f(ans, a=a, b=b):
            ra, rb = rotc(a), rotc(b)
            w = [lt(a[1], b[1], TOL), lt(b[3], a[3], TOL), lt(a[2], b[2], TOL), lt(ra[0], rb[0], TOL), lt(rb[0], ra[0], TOL),
                 lt(ra[3], rb[3], TOL), lt(rb[3], ra[3], TOL)]
            for i, (x, y) in enumerate(zip(ans, w)):
                if y is not None:
                    ctx.seen("cmp-true" if y else "cmp-false")
                    ctx.check((x == "1") == y, "cmp:%d" % i, lambda: "comparator %d of %r, %r = %s" % (i, a, b, x))
        add("cmp %s %s" % (U.elem(a), U.elem(b)), f)
    for _ in range(4):
        n = r.choice([0, 1, 2, 5, 20, 60])
        es = []
        for i in range(n):
            x, y = r.randint(0, 400) / 10, r.randint(0, 400) / 10
            es.append((1, x, y, x + r.randint(0, 90) / 10, y + r.randint(0, 90) / 10, r.randint(0, 3), 0))

        def f(ans, es=es):
            keys = [lambda e: e[1], lambda e: -e[3], lambda e: e[2], lambda e: rotc(e)[0], lambda e: -rotc(e)[0],
                    lambda e: rotc(e)[3], lambda e: -rotc(e)[3]]
            for i, (part, key) in enumerate(zip(ans.split(";"), keys)):
                idx = [int(x) for x in part.split()]
                ctx.check(sorted(idx) == list(range(len(es))), "sort:permutation", lambda: "sorting lost elements: %r" % idx)
                ks = [key(es[j]) for j in idx if 0 <= j < len(es)]
                ctx.check(all(x <= y + 1e-3 for x, y in zip(ks, ks[1:])), "sort:%d" % i, lambda: "order %d of %r: %r" % (i, es, idx))
                ctx.seen("sort")
        add("sort %d %s" % (n, " ".join(U.elem(e) for e in es)), f)
    # The names of the kinds of elements, formats and roles.
    sep = r.choice([", ", ",", " or ", "|"])

    def f(ans, sep=sep):
        lists, names = ans.split(" ")[:3], ans.split(" ")[3:]
        for x, k, want in zip(lists, "tfr", (serial.TYPES, ["txt", "txt-extended", "jsonl"], serial.ROLES)):
            g = [n.split("=")[1] for n in names if n.startswith(k)]
            ctx.check(sorted(g) == sorted(want), "names", lambda: "the names are %s instead of %s" % (g, want))
            ctx.check(U.us(x).decode() == sep.join(g), "names joined", lambda: "%r, joined by %r, is %r" % (g, sep, U.us(x)))
            ctx.seen("names")
    add("names " + U.hs(sep), f)
    for line, f, a in zip(lines, exp, U.calls(ctx, lines)):
        f(a)
        ctx.ok(line)
        ctx.sample("%s -> %s" % (line[:150], a[:100]))
