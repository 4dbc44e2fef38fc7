"""Reads the objects of a (not encrypted) PDF file with plain objects and incremental updates: enough to find the pages and their annotations."""
import re

TOK = re.compile(rb"[\x00\t\n\f\r ]*(?:%[^\n\r]*[\x00\t\n\f\r ]*)*(<<|>>|\[|\]|/[^\x00\t\n\f\r ()<>\[\]{}/%]*|<[0-9A-Fa-f\s]*>|\(|[+-]?[0-9.]+(?:[eE][+-]?\d+)?|[A-Za-z*'\"]+)", re.S)


class Ref(int):
    pass


class Name(bytes):
    pass


class Parser:
    def __init__(self, data, pos):
        self.d, self.p = data, pos

    def tok(self):
        m = TOK.match(self.d, self.p)
        if not m:
            raise ValueError("no token at %d: %r" % (self.p, self.d[self.p:self.p + 30]))
        self.p = m.end()
        return m.group(1)

    def value(self, t=None):
        t = self.tok() if t is None else t
        if t == b"<<":
            d = {}
            while True:
                t = self.tok()
                if t == b">>":
                    return d
                d[t[1:]] = self.value()
        if t == b"[":
            a = []
            while True:
                t = self.tok()
                if t == b"]":
                    return a
                a.append(self.value(t))
        if t == b"(":
            out, depth = bytearray(), 1
            while True:
                c = self.d[self.p:self.p + 1]
                if not c:
                    raise ValueError("string without end")
                self.p += 1
                if c == b"\\":
                    n = self.d[self.p:self.p + 1]
                    self.p += 1
                    m = re.compile(rb"[0-7]{1,3}").match(self.d, self.p - 1)
                    if m:
                        out.append(int(m.group(), 8) & 255)
                        self.p = m.end()
                    else:
                        out += {b"n": b"\n", b"r": b"\r", b"t": b"\t", b"b": b"\b", b"f": b"\f", b"\n": b""}.get(n, n)
                    continue
                depth += (c == b"(") - (c == b")")
                if depth == 0:
                    return bytes(out)
                out += c
        if t.startswith(b"<"):
            h = re.sub(rb"\s", b"", t[1:-1])
            return bytes.fromhex((h + b"0" * (len(h) % 2)).decode())
        if t.startswith(b"/"):
            return Name(t[1:])
        if re.fullmatch(rb"[+-]?[0-9.]+([eE][+-]?\d+)?", t):
            m = re.compile(rb"\s+(\d+)\s+R\b").match(self.d, self.p)
            if t.isdigit() and m:
                self.p = m.end()
                return Ref(int(t))
            return float(t)
        return {b"true": True, b"false": False, b"null": None}.get(t, t)


class File:
    def __init__(self, data):
        self.data = data
        m = list(re.finditer(rb"startxref\s+(\d+)", data))
        if not m:
            raise ValueError("no startxref")
        self.offsets, self.trailer = {}, None
        pos = int(m[-1].group(1))
        seen = set()
        while pos is not None and pos not in seen:
            seen.add(pos)
            pos = self._xref(pos)

    def _xref(self, pos):
        d = self.data
        m = re.compile(rb"\s*xref\s+").match(d, pos)
        if not m:
            raise ValueError("no xref table at %d" % pos)
        p = m.end()
        head = re.compile(rb"(\d+) (\d+)\s+")
        ent = re.compile(rb"(\d{10}) (\d{5}) ([nf])[ \r\n]+")
        while True:
            m = head.match(d, p)
            if not m:
                break
            p = m.end()
            for i in range(int(m.group(2))):
                e = ent.match(d, p)
                if not e:
                    raise ValueError("damaged xref table at %d" % p)
                n = int(m.group(1)) + i
                self.offsets.setdefault(n, int(e.group(1)) if e.group(3) == b"n" else None)
                p = e.end()
        m = re.compile(rb"trailer\s*").match(d, p)
        if not m:
            raise ValueError("no trailer")
        t = Parser(d, m.end()).value()
        if self.trailer is None:
            self.trailer = t
        return int(t[b"Prev"]) if b"Prev" in t else None

    def get(self, x):
        while isinstance(x, Ref):
            o = self.offsets.get(int(x))
            if o is None:
                return None
            m = re.compile(rb"\s*(\d+)\s+(\d+)\s+obj").match(self.data, o)
            if not m or int(m.group(1)) != int(x):
                raise ValueError("object %d is not at its place" % int(x))
            x = Parser(self.data, m.end()).value()
        return x

    def pages(self):
        out = []

        def walk(n, inh):
            d = self.get(n)
            if not isinstance(d, dict):
                out.append(None)
                return
            if b"Kids" in d:
                for k in self.get(d[b"Kids"]):
                    walk(k, inh)
            else:
                out.append(d)
        walk(self.get(self.trailer[b"Root"])[b"Pages"], {})
        return out

    def annots(self, page):
        return [self.get(a) for a in self.get(page.get(b"Annots")) or []]
