"""Reads the events that the recorder wrote."""
import json, math


def _s(x):
    return x.encode("latin-1").decode("utf-8", "surrogateescape")


class Obj:
    def __init__(self, kind, oid, d):
        self.kind, self.oid = kind, oid
        self.__dict__.update(d)
        p = d.get("pos")
        if p:
            self.page, self.x0, self.y0, self.x1, self.y1, self.rot, self.wmode = p
        for k in ("text", "font", "dtext", "id", "name"):
            if k in d:
                setattr(self, k, _s(d[k]))

    def box(self):
        return (self.x0, self.y0, self.x1, self.y1)

    # The coordinates with respect to the rotation of the element.
    def rl(self):
        return (self.x0, self.y0, self.x1, self.y1)[self.rot]

    def ru(self):
        return (self.y0, self.x1, self.y1, self.x0)[self.rot]

    def rr(self):
        return (self.x1, self.y1, self.x0, self.y0)[self.rot]

    def rlo(self):
        return (self.y1, self.x0, self.y0, self.x1)[self.rot]

    def __repr__(self):
        t = getattr(self, "text", None)
        return "%s#%d%s@%s[%s]" % (self.kind, self.oid, "" if t is None else " %r" % t, "p%g" % self.page if hasattr(self, "page") else "",
                                   ",".join("%g" % v for v in self.box()) if hasattr(self, "x0") else "")


class Stage:
    KINDS = ("chars", "words", "lines", "blocks", "figures", "shapes", "graphics", "segments")

    def __init__(self, d):
        self.name = d["stage"]
        self.stats = d["stats"]
        self.stats["mostFreqFontName"] = _s(self.stats["mostFreqFontName"])
        self.fonts = {_s(k): v for k, v in d["fonts"].items()}
        self.all = {}
        for k in self.KINDS:
            t = {}
            for o, x in d[k].items():
                ob = Obj(k[:-1], int(o), x)
                t[int(o)] = ob
                self.all[int(o)] = ob
            setattr(self, k, t)
        self.pages = d["pages"]
        for p in self.pages:
            for c in p["bcuts"] + p["rcuts"]:
                c["id"] = _s(c["id"])

    def get(self, oids):
        return [self.all[o] for o in oids]


def load(path):
    stages, status = {}, None
    with open(path) as f:
        for line in f:
            d = json.loads(line)
            if d["stage"] == "exit":
                status = d["status"]
            else:
                stages[d["stage"]] = Stage(d)
    return stages, status
