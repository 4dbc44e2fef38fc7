"""Generates Type 1 font programs, and interprets their char strings (independently of the code under test; see "Adobe Type 1 Font Format")."""
import struct

OPS = {"hstem": 1, "vstem": 3, "vmoveto": 4, "rlineto": 5, "hlineto": 6, "vlineto": 7, "rrcurveto": 8, "closepath": 9, "callsubr": 10, "return": 11,
       "hsbw": 13, "endchar": 14, "rmoveto": 21, "hmoveto": 22, "vhcurveto": 30, "hvcurveto": 31,
       "dotsection": (12, 0), "vstem3": (12, 1), "hstem3": (12, 2), "seac": (12, 6), "sbw": (12, 7), "div": (12, 12), "callothersubr": (12, 16),
       "pop": (12, 17), "setcurrentpoint": (12, 33)}


def number(n, long=False):
    if long or not -1131 <= n <= 1131:
        return b"\xff" + struct.pack(">i", n)
    if -107 <= n <= 107:
        return bytes([n + 139])
    if n > 0:
        n -= 108
        return bytes([247 + n // 256, n % 256])
    n = -n - 108
    return bytes([251 + n // 256, n % 256])


def assemble(toks, rng=None):
    out = b""
    for t in toks:
        if isinstance(t, int):
            out += number(t, long=rng is not None and rng.random() < .03)
        else:
            c = OPS[t]
            out += bytes(c) if isinstance(c, tuple) else bytes([c])
    return out


def encrypt(data, key, lead):
    out = bytearray()
    for b in lead + data:
        c = b ^ (key >> 8)
        out.append(c)
        key = ((c + key) * 52845 + 22719) & 0xffff
    return bytes(out)


class Interpreter:
    """The box of all points of the path, including control points and the left side bearing point."""

    def __init__(self, subrs):
        self.subrs = subrs

    def run(self, toks):
        self.st, self.ps, self.x, self.y, self.pts, self.flex = [], [], 0, 0, [], None
        self.go(toks)
        if not self.pts:
            return None
        xs, ys = [p[0] for p in self.pts], [p[1] for p in self.pts]
        return min(xs), min(ys), max(xs), max(ys)

    def to(self, dx, dy):
        self.x += dx
        self.y += dy
        self.pts.append((self.x, self.y))

    def go(self, toks):
        """Returns True at the end of the char string."""
        for t in toks:
            s = self.st
            if isinstance(t, int):
                s.append(t)
            elif t in ("hsbw",):
                self.x, self.y = s[0], 0
                self.pts.append((self.x, self.y))
                s.clear()
            elif t == "sbw":
                self.x, self.y = s[0], s[1]
                self.pts.append((self.x, self.y))
                s.clear()
            elif t in ("rmoveto", "rlineto"):
                self.to(s[0], s[1])
                s.clear()
            elif t in ("hmoveto", "hlineto"):
                self.to(s[0], 0)
                s.clear()
            elif t in ("vmoveto", "vlineto"):
                self.to(0, s[0])
                s.clear()
            elif t == "rrcurveto":
                for i in (0, 2, 4):
                    self.to(s[i], s[i + 1])
                s.clear()
            elif t == "vhcurveto":
                self.to(0, s[0])
                self.to(s[1], s[2])
                self.to(s[3], 0)
                s.clear()
            elif t == "hvcurveto":
                self.to(s[0], 0)
                self.to(s[1], s[2])
                self.to(0, s[3])
                s.clear()
            elif t == "div":
                b, a = s.pop(), s.pop()
                assert a % b == 0
                s.append(a // b)
            elif t == "callsubr":
                if self.go(self.subrs[s.pop()]):
                    return True
            elif t == "return":
                return False
            elif t == "endchar":
                return True
            elif t == "callothersubr":
                k, n = s.pop(), s.pop()
                args = [s.pop() for _ in range(n)]   # the top of the stack first
                if k == 3:
                    self.ps = [args[0]]
                elif k == 0:
                    # The end of a flex: the last two arguments are the end point.
                    self.ps = [args[0], args[1]]
                else:
                    self.ps = list(args)
            elif t == "pop":
                s.append(self.ps.pop())
            elif t == "setcurrentpoint":
                self.x, self.y = s[0], s[1]
                self.pts.append((self.x, self.y))
                s.clear()
            elif t in ("hstem", "vstem", "hstem3", "vstem3", "closepath", "dotsection", "seac"):
                s.clear()
            else:
                raise AssertionError(t)
        return False


STD_SUBRS = [[3, 0, "callothersubr", "pop", "pop", "setcurrentpoint", "return"], [0, 1, "callothersubr", "return"], [0, 2, "callothersubr", "return"],
             ["return"], [1, 3, "callothersubr", "pop", "callsubr", "return"]]


class Program:
    """A font program. glyphs: {name: tokens}"""

    def __init__(self, rng, names, big=.5):
        self.rng = rng
        r = rng
        self.subrs = [list(s) for s in STD_SUBRS]
        self.lenIV = r.choice([4, 4, 4, 0, 1, 5, 10])
        self.form = r.choice(["raw", "raw", "pfb", "hex"])
        self.matrix = (.001, 0, 0, .001, 0, 0)
        if r.random() < .25:
            s = r.choice([.0005, .002, .0009765625])
            self.matrix = (s, 0, r.choice([0, 0, .0002]), s, r.choice([0, 0, .05]), r.choice([0, 0, .2, -.15]))
        self.weight = r.choice([None, "Regular", "Medium", "Bold", "Light", "Roman"])
        self.angle = r.choice([None, 0, 0, -12, -14.04, 15])
        self.rd = r.choice(["RD", "RD", "-|"])
        self.no_subrs = r.random() < .1
        self.eol = r.choice(["\n", "\n", "\r\n", "\r"])
        for _ in range(r.choice([0, 3, 10])):
            self.subrs.append(self.path(r.randint(1, 4), flex=False) + ["return"])
        for _ in range(r.choice([0, 2])):
            # Subroutines that call other ones.
            self.subrs.append(["hstemarg"][:0] + [r.randint(5, len(self.subrs) - 1) if len(self.subrs) > 5 else 3, "callsubr"] + self.path(1, flex=False) + ["return"])
        if self.no_subrs:
            self.subrs = []
        self.glyphs = {".notdef": [0, 500, "hsbw", "endchar"]}
        for n in names:
            self.glyphs[n] = self.glyph(big)
        it = Interpreter(self.subrs)
        self.boxes = {n: it.run(g) for n, g in self.glyphs.items()}

    def v(self, m=300):
        r = self.rng
        k = r.random()
        if k < .1:
            return [r.randint(-3, 3)]
        if k < .16:
            d = r.choice([2, 3, 10])
            return [r.randint(-m, m) * d, d, "div"]
        return [r.randint(-m, m)]

    def path(self, n, flex=True):
        r, out = self.rng, []
        for _ in range(n):
            k = r.randint(0, 11 if flex and self.subrs else 9)
            if k <= 1:
                out += self.v() + self.v() + ["rlineto"]
            elif k == 2:
                out += self.v() + ["hlineto"]
            elif k == 3:
                out += self.v() + ["vlineto"]
            elif k == 4:
                for _ in range(6):
                    out += self.v(150)
                out += ["rrcurveto"]
            elif k == 5:
                for _ in range(4):
                    out += self.v(200)
                out += [r.choice(["vhcurveto", "hvcurveto"])]
            elif k == 6:
                out += ["closepath"] + r.choice([self.v() + self.v() + ["rmoveto"], self.v() + ["hmoveto"], self.v() + ["vmoveto"]])
            elif k == 7:
                out += [r.randint(-100, 900), r.randint(10, 90), r.choice(["hstem", "vstem"])]
            elif k == 8:
                out += [10, 20, 200, 20, 400, 20, r.choice(["hstem3", "vstem3"])]
            elif k == 9:
                out += ["dotsection"]
            elif k == 10:
                # A flex; its reference point lies between its ends.
                x = [r.randint(20, 120) for _ in range(6)]
                h = r.choice([3, 5, 10, -4])
                horizontal = r.random() < .5

                def p(a, b):
                    return [a, b] if horizontal else [b, a]
                m = x[0] + x[1] + x[2]
                out += [1, "callsubr"] + p(m, 0) + ["rmoveto", 2, "callsubr"] + p(x[0] - m, 0) + ["rmoveto", 2, "callsubr"]
                out += p(x[1], h) + ["rmoveto", 2, "callsubr"] + p(x[2], 0) + ["rmoveto", 2, "callsubr"]
                out += p(x[3], 0) + ["rmoveto", 2, "callsubr"] + p(x[4], -h) + ["rmoveto", 2, "callsubr"] + p(x[5], 0) + ["rmoveto", 2, "callsubr"]
                out += ["FLEX"]
            else:
                i = r.choice([4, 4] + list(range(5, len(self.subrs))))
                out += [3, 4, "callsubr"] if i == 4 else [i, "callsubr"]
        return out

    def glyph(self, big):
        r = self.rng
        if r.random() < .05:
            return [r.randint(0, 50), 500, "hsbw", "endchar"]
        if r.random() < .03:
            # An accented character that is composed of two others.
            return [r.randint(0, 50), 500, "hsbw", r.randint(0, 50), r.randint(-100, 300), r.randint(-50, 300), r.choice([65, 97]), r.choice([193, 194, 66]), "seac"]
        out = [r.randint(-60, 80), r.randint(200, 1000), "hsbw"] if r.random() < .85 else [r.randint(-60, 80), r.randint(-30, 30), r.randint(200, 1000), 0, "sbw"]
        out += [r.randint(0, 300), r.randint(-250, 700) if r.random() > big else r.choice([1200, -700, 960, -360, 940, -340]), "rmoveto"]
        out += self.path(r.randint(1, 9)) + ["closepath", "endchar"]
        # The ends of flexes need absolute coordinates.
        it = Interpreter(self.subrs)
        while "FLEX" in out:
            i = out.index("FLEX")
            it.run(out[:i])
            out[i:i + 1] = [50, int(it.x), int(it.y), 0, "callsubr"]
        return out

    # Leave out the font matrix if it is the usual one.
    no_matrix = False

    def write(self):
        """(length1, length2, length3, data)"""
        r = self.rng
        e = self.eol
        sp = r.choice([" ", " ", ""])
        a = "%!PS-AdobeFont-1.0: Foo 1.0" + e + "12 dict begin" + e + "/FontInfo 9 dict dup begin" + e
        if self.weight is not None:
            a += "/Weight%s(%s)%sreadonly def" % (sp, self.weight, sp) + e
        if self.angle is not None:
            a += r.choice(["", "", " "]) + "/ItalicAngle %s def" % self.angle + e
        a += "/isFixedPitch false def" + e + "end readonly def" + e + "/FontName /Foo def" + e + "/PaintType 0 def" + e + "/FontType 1 def" + e
        m = " ".join(("%.10f" % v).rstrip("0").rstrip(".") for v in self.matrix)
        line = r.choice(["/FontMatrix [%s] readonly def", "/FontMatrix[%s]readonly def", "/FontMatrix [ %s ] def"]) % m + e
        if self.matrix != (.001, 0, 0, .001, 0, 0) or not self.no_matrix:
            a += line
        a += "/Encoding StandardEncoding def" + e + "/FontBBox{0 -200 1000 900}readonly def" + e + "currentdict end" + e + "currentfile eexec" + e
        asc = a.encode()
        rd = self.rd.encode()
        nd, np = (b"ND", b"NP") if self.rd == "RD" else (b"|-", b"|")
        p = b"dup /Private 12 dict dup begin\n/%s {string currentfile exch readstring pop} executeonly def\n/%s {noaccess def} executeonly def\n" % (rd, nd)
        p += b"/%s {noaccess put} executeonly def\n/BlueValues [-15 0 700 715] def\n/password 5839 def\n" % np
        if self.lenIV != 4 or r.random() < .3:
            p += b"/lenIV %d def\n" % self.lenIV

        def cs(toks):
            lead = bytes(r.randint(0, 255) for _ in range(self.lenIV))
            return encrypt(assemble(toks, r), 4330, lead)
        if not self.no_subrs:
            p += b"/Subrs %d array\n" % len(self.subrs)
            for i, s in enumerate(self.subrs):
                c = cs(s)
                p += b"dup %d %d %s " % (i, len(c), rd) + c + b" " + np + b"\n"
            p += nd + b"\n"
        p += b"2 index /CharStrings %d dict dup begin\n" % len(self.glyphs)
        for n, g in self.glyphs.items():
            c = cs(g)
            p += b"/%s %d %s " % (n.encode(), len(c), rd) + c + b" " + nd + b"\n"
        p += b"end\nend\nreadonly put\nnoaccess put\ndup/FontName get exch definefont pop\nmark currentfile closefile\n"
        while True:
            # The first byte must not be a blank, and not all of the first four may be hexadecimal digits.
            enc = encrypt(p, 55665, bytes(r.randint(0, 255) for _ in range(4)))
            if enc[0] not in b" \t\r\n" and not all(chr(c) in "0123456789abcdefABCDEF" for c in enc[:4]) and enc[0] != 0x80:
                break
        tail = (b"0" * 64 + b"\n") * 8 + b"cleartomark\n"
        if self.form == "hex":
            h = enc.hex().encode()
            h = h.upper() if r.random() < .5 else h
            enc = b"\n".join(h[i:i + 64] for i in range(0, len(h), 64)) + b"\n"
        if self.form == "pfb":
            def seg(t, b):
                return b"\x80" + bytes([t]) + struct.pack("<I", len(b)) + b
            data = seg(1, asc) + seg(2, enc) + seg(1, tail) + b"\x80\x03"
            return len(asc), len(enc), len(tail), data
        return len(asc), len(enc), len(tail), asc + enc + tail
