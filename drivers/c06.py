"""C06: DumbJson finds every item of a JSON document with its exact text and
position."""
import json
from common import Driver, expect, same
from openformats.utils.json import DumbJson

D = Driver()
r = D.rnd
BODY = ["a", "", " ", "\\\"", "\\\\", "\\n", "\\u0041", "\\/", "{", "}", "[",
        "]", ":", ",", "é", "日本", "\U0001f600", "true", "null", "1", "'",
        "\\\\\\\"", "#", "//", "\u00a0", "\u2028", "\x7f", "e5", "-", "\\t"]
NUM = ["0", "-0", "1", "-12", "1.5", "-0.25", "1e5", "1E+7", "2.5e-3", "10",
       "123456789012345678901234567890", "-1.0E10", "0.0", "1e-2", "7E3"]
WS = ["", "", "", " ", "\n", "\t", "\r\n", "  ", " \n\t "]


def body():
    return "".join(r.choice(BODY) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))


class G(object):
    """a document and its items: (text, [expected])"""

    def __init__(self):
        self.parts, self.n = [], 0

    def put(self, s):
        self.parts.append(s)
        self.n += len(s)

    def ws(self):
        self.put(r.choice(WS))

    def value(self, depth):
        k = r.random()
        if depth and k < .35:
            return self.container(depth - 1)
        if k < .65:
            self.put('"')
            p, b = self.n, body()
            self.put(b + '"')
            return ("str", p, b)
        p = self.n
        lit = r.choice(NUM) if k < .85 else r.choice(
            ["true", "false", "null"])
        self.put(lit)
        return ("lit", p, json.loads(lit))

    def container(self, depth, kind=None):
        kind = kind or r.choice(["dict", "list"])
        p, items = self.n, []
        self.put("{" if kind == "dict" else "[")
        n = r.choice([0, 1, 1, 2, 3, 4])
        self.ws()
        for i in range(n):
            if i:
                self.put(",")
            self.ws()
            if kind == "dict":
                self.put('"')
                kp, k = self.n, body()
                self.put(k + '"')
                self.ws()
                self.put(":")
                self.ws()
                items.append((k, kp, self.value(depth)))
            else:
                items.append(self.value(depth))
            self.ws()
        e = self.n
        self.put("}" if kind == "dict" else "]")
        return (kind, p, items, e)


def compare(dj, want):
    kind, p, items, e = want
    same(dj.type, dict if kind == "dict" else list, "type")
    same(dj.start, p, "start")
    got = list(dj)
    same(len(got), len(items), "number of items")
    for g, w in zip(got, items):
        if kind == "dict":
            same(tuple(g[:2]), (w[0], w[1]), "key and its position")
            g, w = g[2:], w[2]
        v, vp = g
        same(vp, w[1], "position of a value")
        if w[0] in ("str", "lit"):
            same(v, w[2], "value")
            same(type(v), type(w[2]), "type of a value")
        else:
            expect(isinstance(v, DumbJson), "container expected, got %r", v)
            if r.random() < .3:
                same(v.end, w[3], "end of a container before its iteration")
            compare(v, w)
    same(dj.end, e, "end")
    if kind == "dict" and r.random() < .5:
        ks = r.sample([w[0] for w in items] + ["no such key", "a"],
                      min(2, len(items) + 2))
        res = dj.find_children(*ks)
        same(len(res), len(ks), "children")
        for k, (v, vp) in zip(ks, res):
            ws = [w[2] for w in items if w[0] == k]
            if not ws:
                same((v, vp), (None, None), "missing child")
            else:
                same(vp, ws[-1][1], "position of a child")
                if ws[-1][0] in ("str", "lit"):
                    same(v, ws[-1][2], "child")


def run(g, want, start):
    text = "".join(g.parts)

    def fn(text):
        json.loads(text[start:] if start else text, strict=False)
        compare(DumbJson(text, start) if start or r.random() < .5
                else DumbJson(text), want)
    D.check("embedded" if start else "document", text, fn)


limit = 150000 if D.tier == "thorough" else 12000
while D.left() > 0 and D.n < limit:
    g = G()
    g.ws()
    want = g.container(r.choice([0, 1, 2, 3, 4]))
    g.put(r.choice(["", "\n", " "]))
    run(g, want, 0)
    # the same inside something else
    g = G()
    g.put(r.choice(['[1, ', '{"x": ', '{"a": "}{", "b":', "[[]," "\n"]))
    s = g.n
    g.ws()
    want = g.container(r.choice([0, 1, 2]))
    text = "".join(g.parts)
    D.check("embedded", text, lambda t: compare(DumbJson(t, s), want))
D.finish("random JSON documents written together with the items, positions "
         "and ends expected; non-trivial: distinct document")
