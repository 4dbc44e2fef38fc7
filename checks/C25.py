"""Frequency counters and the priority queue with a fixed capacity, compared with multisets."""
import collections, heapq
import unitio as U

PROGRAMS = ["unit"]
N = {"quick": 2000, "thorough": 20000}
RULE = "one counter or queue with its history of operations; non-trivial: at least one operation"
MUST_SEE = ["counter-unique-max", "large count", "counter-tie", "counter-empty", "counter-zero", "counter-negative-max", "string-counter", "pq-overflow", "pq-order"]


def case(ctx):
    r = ctx.rng
    lines, exp = [], []

    def add(line, fn):
        lines.append(line)
        exp.append(fn)

    for _ in range(30):
        ops = []
        pool = [r.choice([r.randint(-30, 30) / 10, r.uniform(-1e3, 1e3), 10.0 ** r.randint(-300, 300), -10.0 ** r.randint(-300, 300), 0.0])
                for _ in range(r.choice([1, 2, 4, 12]))]
        if r.random() < .3:
            pool = [-abs(x) - 1 for x in pool]
        for _ in range(r.choice([0, 1, 2, 5, 30, 80])):
            ops.append((r.choice(pool), r.choice([-1] * 18 + [0, 1, 2, 7] * 6 + [40000, 100000, 20000000])))

        def f(ans, ops=ops):
            c = collections.Counter()
            for k, n in ops:
                c[k] += 1 if n < 0 else n
            ctx.seen("large count", sum(c.values()) > 1 << 16)
            g = ans.split()
            ctx.check(int(g[0]) == sum(c.values()), "counter:sum", lambda: "sum of %r: %s" % (ops, g[0]))
            mx = max(c.values(), default=0)
            if mx == 0:
                ctx.seen("counter-empty" if not c else "counter-zero")
                ctx.check(g[1:] == ["throw"] * 5, "counter:empty", lambda: "an empty counter %r answered %r" % (ops, g))
                return
            best = {k for k, n in c.items() if n == mx}
            ctx.seen("counter-unique-max" if len(best) == 1 else "counter-tie")
            if max(k for k, n in c.items() if n > 0) < 0:
                ctx.seen("counter-negative-max")
            if "throw" in g:
                return ctx.fail("counter:throw", "%r: %r" % (ops, g))
            ctx.check(U.ud(g[1]) in best, "counter:mostFreq", lambda: "mostFreq of %r: %s" % (ops, U.ud(g[1])))
            ctx.check(int(g[2]) == mx, "counter:mostFreqCount", lambda: "mostFreqCount of %r: %s" % (ops, g[2]))
            ctx.check(U.ud(g[3]) in best and int(g[4]) == mx, "counter:mostFreqAndCount", lambda: "%r: %r" % (ops, g))
            ctx.check(U.ud(g[1]) == U.ud(g[3]), "counter:inconsistent", lambda: "%r: %r" % (ops, g))
            ctx.check(U.ud(g[5]) == max(k for k, n in c.items() if n > 0), "counter:max", lambda: "max of %r: %s" % (ops, U.ud(g[5])))
        add("dcount " + " ".join("%s %d" % (U.hd(k), n) for k, n in ops), f)
    for _ in range(15):
        pool = ["", "a", "A", "Times-Roman", "é", "b" * 100, "font-3-0"][:r.randint(1, 7)]
        ops = [(r.choice(pool), r.choice([-1, -1, 0, 3] * 4 + [66000])) for _ in range(r.choice([0, 1, 3, 30]))]

        def f(ans, ops=ops):
            c = collections.Counter()
            for k, n in ops:
                c[k] += 1 if n < 0 else n
            ctx.seen("large count", sum(c.values()) > 1 << 16)
            g = ans.split()
            ctx.seen("string-counter")
            ctx.check(int(g[0]) == sum(c.values()), "scounter:sum", lambda: "sum of %r: %s" % (ops, g[0]))
            mx = max(c.values(), default=0)
            if mx == 0:
                ctx.check(g[1:] == ["throw"] * 4, "scounter:empty", lambda: "an empty counter %r answered %r" % (ops, g))
                return
            if "throw" in g:
                return ctx.fail("scounter:throw", "%r: %r" % (ops, g))
            best = {k for k, n in c.items() if n == mx}
            ctx.check(U.us(g[1]).decode() in best and U.us(g[3]).decode() in best and int(g[2]) == mx and int(g[4]) == mx, "scounter",
                      lambda: "most frequent of %r: %r" % (ops, g))
        add("scount " + " ".join("%s %d" % (U.hs(k), n) for k, n in ops), f)
    for _ in range(25):
        cap = r.choice([1, 1, 2, 3, 5, 10])
        ops = []
        for _ in range(r.choice([1, 4, 15, 60])):
            k = r.random()
            ops.append("+ %d" % r.randint(-20, 20) if k < .7 else "-" if k < .8 else "?")
        ops.append("?")

        def f(ans, ops=ops, cap=cap):
            h, obs = [], []
            for o in ops:
                if o[0] == "+":
                    if len(h) == cap:
                        heapq.heappop(h)
                        ctx.seen("pq-overflow")
                    heapq.heappush(h, int(o[2:]))
                elif o == "-":
                    if h:
                        heapq.heappop(h)
                else:
                    s = sorted(h)
                    obs.append("%d:%s:%s/%s" % (len(h), h[0] if h else "-", "".join("%d," % x for x in s), "".join("%d," % x for x in s[::-1])))
                    if len(s) > 1:
                        ctx.seen("pq-order")
            ctx.check(ans.split() == obs, "pq", lambda: "queue of capacity %d, %r: %s, expected %r" % (cap, ops, ans, obs))
        add("pq %d %s" % (cap, " ".join(ops)), f)
    for line, f, a in zip(lines, exp, U.calls(ctx, lines)):
        f(a)
        ctx.ok(line)
        ctx.sample("%s -> %s" % (line[:150], a[:100]))
