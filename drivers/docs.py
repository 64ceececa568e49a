"""Handlers and document generators shared by the drivers."""
import importlib
import inspect
import os

MODS = """android android_unescaped beta_android customizable_xml docx
github_markdown github_markdown_v2 json markdown_jsx plaintext po pptx srt
stringsdict vtt xlsx_unstructured yaml.yaml yaml.yaml_i18n""".split()
CLASSES = {}


def handler_classes():
    from openformats.handlers import Handler
    for m in MODS:
        mod = importlib.import_module("openformats.formats." + m)
        for n, c in vars(mod).items():
            if inspect.isclass(c) and issubclass(c, Handler) and \
                    c.__module__ == mod.__name__:
                CLASSES[n] = c
    return list(CLASSES.values())


FIX = os.path.join(os.environ.get("VERIF_REPO", "/repo"),
                   "openformats/tests/formats")


def dos(s):
    return s.replace("\n", "\r\n")


# ------------------------------------------------------------------- JSON
WORDS = ["a", "Hello world", "é", "x y", "日本", "\U0001f600 grin", "it's",
         "<b>bold</b>", "100%", "%s and %d", "a, b", "[x]", ",", ",,", "}",
         "{}"[1:], "null", "key: value", "  lead", "trail  ", "#", "@x",
         "a.b", "..0..", "true", ", }", "[ ,", "a:b", "0"]
JRAW = ['\\"', "\\\\", "\\/", "\\n", "\\t", "\\u0041", "\\ud83d\\ude00",
        "\\b", "\\f", "\\r", "\\\\\\\"", "\\u00e9", "q\\\\"]
JKEYS = ["a", "b", "key", "a.b", ".", "..", "a\\\\b", "a\\\\", "\\\\.", "é",
         "x y", "", "0", "..0..", "k\\\"q", "\\n", "\\u0042", "A", "string",
         "context", "message", "description", "日本", "a:b", "{", "}", "[", ",",
         "@a", "a ", " a", "\\\\\\\\", "k1", "k2", "k3", "k4", "k5", "k6"]
JKEYS_SIMPLE = ["a", "b", "key", "k1", "k2", "k3", "k4", "k5", "x y", "é",
                "a.b", "a\\\\b", "title", "name", "t.t", "\\u00e9x"]


def ws(r, nl=True):
    return r.choice(["", "", " ", "  ", "\n" if nl else " ",
                     "\n  " if nl else " ", "\t"])


def jtext(r, blank=True, braces=False):
    k = r.random()
    if blank and k < .06:
        return r.choice(["", " ", "  "])
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        out.append(r.choice(WORDS) if r.random() < .7 else r.choice(JRAW))
    s = "".join(out)
    if not braces:
        s = s.replace("{", "(").replace("}", ")")
    return s if s.strip() else "w"


NUMS = ["0", "-1", "42", "3.14", "-2.5", "1e5", "1E5", "1.5e3", "2e-7",
        "1e+5", "-1.25E-3", "10000000000000000000", "true", "false", "null"]


def jesc_key(k):
    return k.replace("\\", "\\\\").replace(".", "\\.")


class J(object):
    """a random JSON document and what must be found in it"""

    def __init__(self, r, depth=3, root=None, keys=JKEYS, texts=jtext,
                 others=True, nl=True):
        self.r, self.keys, self.texts = r, keys, texts
        self.others, self.nl = others, nl
        self.spans = []          # (start, end, key path) of the strings
        self.buf = []
        self.n = 0
        root = root or r.choice(["dict", "dict", "list"])
        self.put(r.choice(["", "", " ", "\n"]) if nl else "")
        self.value(None, depth, root)
        self.put(r.choice(["", "\n", " "]) if nl else "")
        self.text = "".join(self.buf)

    def put(self, s):
        self.buf.append(s)
        self.n += len(s)

    def ws(self):
        self.put(ws(self.r, self.nl))

    def value(self, path, depth, kind=None):
        r = self.r
        if kind is None:
            kind = r.choice(["str"] * 6 + (["dict", "list"] if depth > 0
                                           else []) +
                            (["num"] if self.others else []))
        if kind == "str":
            t = self.texts(r)
            self.put('"')
            if t.strip():
                self.spans.append((self.n, self.n + len(t), path, t))
            self.put(t)
            self.put('"')
        elif kind == "num":
            self.put(r.choice(NUMS))
        elif kind == "dict":
            self.put("{")
            self.ws()
            keys = r.sample(self.keys, r.choice([0, 1, 2, 2, 3, 4]))
            for i, k in enumerate(keys):
                if i:
                    self.put(",")
                    self.ws()
                self.put('"' + k + '"')
                self.ws()
                self.put(":")
                self.ws()
                e = jesc_key(k)
                self.value(e if path is None else path + "." + e, depth - 1)
                self.ws()
            self.put("}")
        else:
            self.put("[")
            self.ws()
            for i in range(r.choice([0, 1, 2, 3])):
                if i:
                    self.put(",")
                    self.ws()
                e = "..%d.." % i
                self.value(e if path is None else path + e, depth - 1)
                self.ws()
            self.put("]")

    def template(self, hashes):
        out, p = [], 0
        for (a, b, k, t), h in zip(self.spans, hashes):
            out += [self.text[p:a], h]
            p = b
        return "".join(out) + self.text[p:]

    def with_texts(self, texts):
        return self.template(texts)


def md5id(key, ctx="", plural=False):
    import hashlib
    return hashlib.md5((key + ":" + (ctx or "")).encode("utf-8")
                       ).hexdigest() + ("_pl" if plural else "_tr")


class Doc(object):
    """text with the spans that must be extracted:
    spans = [(start, end, key, value, attrs)]; value is the text, or the forms
    of a plural; attrs: context, developer_comment, ...; the span is what the
    placeholder replaces"""

    def __init__(self, text="", spans=()):
        self.buf, self.n = [], 0
        self.spans = list(spans)
        if text:
            self.put(text)

    def put(self, s):
        self.buf.append(s)
        self.n += len(s)
        return self

    def string(self, raw, key, value=None, **attrs):
        self.spans.append((self.n, self.n + len(raw), key,
                           raw if value is None else value, attrs))
        self.put(raw)
        return self

    @property
    def text(self):
        return "".join(self.buf)

    def ids(self):
        return [md5id(k, a.get("context", ""), isinstance(v, dict))
                for _, _, k, v, a in self.spans]

    def fill(self, texts):
        out, p, t = [], 0, self.text
        for (a, b, _, _, _), h in zip(self.spans, texts):
            out += [t[p:a], h]
            p = b
        return "".join(out) + t[p:]


def check_doc(new_handler, doc, same, expect, newline=True, compile_kw=None,
              translate=None, twice=True, parse_kw=None, render=None,
              compile_src=None):
    """the contract of a handler on one generated document"""
    text, kw, pk = doc.text, compile_kw or {}, parse_kw or {}
    h = new_handler()
    template, ss = h.parse(text, **pk)
    ids = doc.ids()
    same([s.key for s in ss], [x[2] for x in doc.spans], "extracted keys")
    same([s.string for s in ss], [x[3] for x in doc.spans],
         "extracted strings")
    for s, x in zip(ss, doc.spans):
        for a, v in x[4].items():
            same(getattr(s, a), v, "%s of %r" % (a, s.key))
    same([s.template_replacement for s in ss], ids, "placeholders")
    same(len(set(ids)), len(ids), "distinct placeholders")
    same(template, doc.fill(ids), "template")
    orders = [s.order for s in ss]
    expect(all(a < b for a, b in zip(orders, orders[1:])),
           "orders not increasing: %r" % (orders,))
    want = compile_src if compile_src is not None else text
    same(new_handler().compile(template, ss, **kw), want,
         "compile(parse(source))")
    if twice:
        same(h.compile(template, iter(ss), **kw), want,
             "compile on the instance that parsed, from an iterator")
        t2, ss2 = h.parse(text, **pk)
        same(t2, template, "template, parsed again on the same instance")
        same([(s.key, s.string) for s in ss2],
             [(s.key, s.string) for s in ss], "strings, parsed again")
    if translate is not None and doc.spans:
        from openformats.strings import OpenString
        tr = []
        for s in ss:
            tr.append(translate(s))
        out = [render(t, x) if render else t.string
               for t, x in zip(tr, doc.spans)]
        same(new_handler().compile(template, tr, **kw), doc.fill(out),
             "compile with translations")
    if newline and "\n" in text and "\r" not in text:
        td, sd = new_handler().parse(dos(text), **pk)
        same(td, dos(template), "template of the DOS document")
        same([(s.key, s.template_replacement) for s in sd],
             [(s.key, s.template_replacement) for s in ss],
             "strings of the DOS document")
        same(new_handler().compile(td, sd, **kw), dos(want),
             "compile of the DOS document")
    return template, ss


def retext(s, new):
    """the same OpenString with another text"""
    from openformats.strings import OpenString
    kw = {k: getattr(s, k) for k in OpenString.DEFAULTS}
    return OpenString(s.key, new, pluralized=s.pluralized, **kw)
