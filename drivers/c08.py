"""C08: JSON-family handlers: every translatable string is extracted exactly
once, the template is the source with those strings replaced, and compiling
puts texts back where they came from."""
import json
from common import Driver, expect, same
import docs
from docs import J, Doc, check_doc, retext, jesc_key
from openformats.exceptions import ParseError
from openformats.formats.json import (JsonHandler, ArbHandler,
                                      StructuredJsonHandler, ChromeI18nHandler,
                                      ChromeI18nHandlerV3)

D = Driver()
r = D.rnd


def tr(s):
    if s.pluralized:
        return s
    return retext(s, r.choice(["T", "\\\"", "é\\n", "t t", "\\\\", "",
                               "a longer translation \\u0041", s.string * 2])
                  + "x")


def check(H):
    def f(doc):
        check_doc(H, doc, same, expect, translate=tr)
    f.__name__ = H.__name__
    return f


class AsDoc(Doc):
    def __init__(self, text, spans):
        Doc.__init__(self, text, spans)

    def __repr__(self):
        return repr(self.text)


def run(section, H, doc, fn=None):
    f = fn or check(H)
    return D.check(section, doc.text, lambda _: f(doc))


# ---- KEYVALUEJSON
def kv_doc():
    j = J(r, depth=r.choice([1, 2, 3, 4]))
    return AsDoc(j.text, [(a, b, k, t, {}) for a, b, k, t in j.spans])


def dup_doc():
    """the same key twice in one dictionary -> ParseError"""
    j = J(r, depth=2, root="dict")
    keys = r.choice(["a", "k\\\"q", "a.b", "é", ""])
    v1, v2 = r.choice(['"x"', "1", '{"q": "z"}', "[]", '"  "', "null"]), \
        r.choice(['"y"', "2", '{"q": "z"}', "null"])
    inner = '"%s": %s, "other": "o",\n "%s": %s' % (keys, v1, keys, v2)
    wrap = r.choice(["{%s}", '{"n": {%s}}', '[{%s}]', '{"z": [1, {%s}]}'])
    return wrap.replace("%s", inner)


def dup(text):
    try:
        JsonHandler().parse(text)
    except ParseError:
        return None
    return "duplicate key accepted"


def values_kept(doc):
    """JSON reading of the compiled file: only string values changed"""
    h = JsonHandler()
    template, ss = h.parse(doc.text)
    out = JsonHandler().compile(template, [retext(s, "N%d" % i)
                                           for i, s in enumerate(ss)])
    n = [0]

    def walk(a, b):
        same(type(b), type(a), "type of a value")
        if isinstance(a, dict):
            same(list(b), list(a), "keys")
            for k in a:
                walk(a[k], b[k])
        elif isinstance(a, list):
            same(len(b), len(a), "list length")
            for x, y in zip(a, b):
                walk(x, y)
        elif isinstance(a, str) and a_nonblank(a, b):
            same(b, "N%d" % n[0], "value of string %d" % n[0])
            n[0] += 1
        else:
            same(b, a, "untouched value")
    walk(json.loads(doc.text, strict=False), json.loads(out, strict=False))
    same(n[0], len(ss), "number of strings")


def a_nonblank(a, b):
    return a != b or bool(a.strip())


# ---- structured
def sj_doc():
    d = Doc()
    nl = r.choice(["", "\n", "\n  "])
    sp = r.choice(["", " "])

    def put_leaf(path):
        raw = docs.jtext(r, blank=False)
        fields = ["string"] + r.sample(
            ["context", "developer_comment", "character_limit", "extra"],
            r.randrange(0, 4))
        r.shuffle(fields)
        vals = {"context": r.choice(["c", "ctx é", "a.b"]),
                "developer_comment": r.choice(["note", "a note", "é"]),
                "character_limit": r.choice(["10", "1", "250"]),
                "extra": r.choice(['"e"', "1", "null", "true"])}
        at = {}
        if "context" in fields:
            at["context"] = vals["context"]
        if "developer_comment" in fields:
            at["developer_comment"] = vals["developer_comment"]
        if "character_limit" in fields:
            at["character_limit"] = int(vals["character_limit"])
        d.put("{")
        for i, f in enumerate(fields):
            d.put(("," if i else "") + nl + '"' + f + '"' + sp + ":" + sp)
            if f == "string":
                d.put('"').string(raw, path, **at).put('"')
            elif f in ("character_limit", "extra"):
                d.put(vals[f])
            else:
                d.put('"' + vals[f] + '"')
        d.put(nl + "}")

    def put_dict(path, depth):
        d.put("{" + nl)
        ks = [k for k in docs.JKEYS_SIMPLE if k != "string"]
        for i, k in enumerate(r.sample(ks, r.choice([1, 2, 3]))):
            if i:
                d.put("," + nl)
            d.put('"' + k + '"' + sp + ":" + sp)
            e = jesc_key(k)
            p = e if path is None else path + "." + e
            if depth and r.random() < .3:
                put_dict(p, depth - 1)
            else:
                put_leaf(p)
        d.put(nl + "}")
    put_dict(None, 2)
    d.put(r.choice(["", "\n"]))
    return d


# ---- ARB
def arb_doc():
    d = Doc()
    nl = r.choice(["", "\n", "\n  "])
    d.put("{" + nl)
    ent = []
    for k in r.sample(["title", "msg", "k1", "k2", "k3", "hello_w", "é"],
                      r.choice([1, 2, 3, 4])):
        at, meta = {}, None
        m = r.random()
        if m < .6:
            fs = []
            if r.random() < .5:
                at["developer_comment"] = r.choice(["desc", "a é"])
                fs.append('"description": "%s"' % at["developer_comment"])
            if r.random() < .4:
                at["context"] = r.choice(["ctx", "x y"])
                fs.append('"context": "%s"' % at["context"])
            if r.random() < .5:
                fs.append('"type": "text"')
            if r.random() < .2:
                fs.append('"placeholders": {"n": {"example": "q"}}')
            r.shuffle(fs)
            meta = '"@%s": {%s}' % (k, ", ".join(fs))
        skip = r.random() < .15
        if skip:
            meta = '"@%s": {"type": "image"}' % k
        ent.append((k, at, skip, meta, r.random() < .5))
    parts = []
    if r.random() < .5:
        parts.append(('raw', '"@@locale": "en"'))
    for k, at, skip, meta, first in ent:
        s = ("str", k, at, skip)
        m = [("raw", meta)] if meta else []
        parts += (m + [s]) if first else ([s] + m)
    if all(p[0] == "raw" or p[3] for p in parts):
        parts.append(("str", "zz", {}, False))
    if r.random() < .4:
        parts.insert(r.randrange(len(parts) + 1), ("raw", '"num": 5'))
    for i, p in enumerate(parts):
        if i:
            d.put("," + nl)
        if p[0] == "raw":
            d.put(p[1])
        else:
            d.put('"%s": "' % p[1])
            raw = docs.jtext(r, blank=False)
            if p[3]:
                d.put(raw)
            else:
                d.string(raw, p[1], **p[2])
            d.put('"')
    d.put(nl + "}" + r.choice(["", "\n"]))
    return d


# ---- Chrome
def chrome_doc(v3):
    d = Doc()
    nl = r.choice(["", "\n", "\n  "])
    d.put("{" + nl)
    keys = docs.JKEYS if v3 else [k for k in docs.JKEYS_SIMPLE
                                  if "." not in k and "\\" not in k]
    ks = [k for k in r.sample(keys, r.choice([1, 2, 3, 4]))]
    for i, k in enumerate(ks):
        if i:
            d.put("," + nl)
        raw = docs.jtext(r, blank=False)
        at = {"developer_comment": ""}
        fs = ["message"]
        if r.random() < .5:
            fs.append("description")
            at["developer_comment"] = r.choice(["desc", "é d"])
        if r.random() < .3:
            fs.append("placeholders")
        r.shuffle(fs)
        d.put('"%s":%s{' % (k, r.choice(["", " "])))
        for n, f in enumerate(fs):
            if n:
                d.put(", ")
            if f == "message":
                d.put('"message": "')
                d.string(raw, k if v3 else k + ".message", **at)
                d.put('"')
            elif f == "description":
                d.put('"description": "%s"' % at["developer_comment"])
            else:
                d.put('"placeholders": {"x": {"content": "$1"}}')
        d.put("}")
    d.put(nl + "}" + r.choice(["", "\n"]))
    return d


GEN = [("keyvalue", JsonHandler, kv_doc, None),
       ("keyvalue-values", JsonHandler, kv_doc, values_kept),
       ("structured", StructuredJsonHandler, sj_doc, None),
       ("arb", ArbHandler, arb_doc, None),
       ("chrome", ChromeI18nHandler, lambda: chrome_doc(False), None),
       ("chrome-v3", ChromeI18nHandlerV3, lambda: chrome_doc(True), None)]
limit = 60000 if D.tier == "thorough" else 5000
while D.left() > 0 and D.n < limit:
    for name, H, gen, fn in GEN:
        run(name, H, gen(), fn)
    D.check("duplicate-keys", dup_doc(), dup)
D.finish("random JSON documents (nesting, escapes, spacing, all value kinds, "
         "awkward keys) with the strings expected in them recorded while "
         "generating; non-trivial: distinct document")
