"""C02: newline style: detection, conversion and faithful rendering."""
import glob
import io
import itertools
from common import Driver, expect, same
import docs
from docs import dos
from openformats.transcribers import Transcriber
from openformats.utils.newlines import find_newline_type, force_newline_type

D = Driver()
r = D.rnd


def ref_style(s):
    for i, ch in enumerate(s):
        if ch == "\n":
            return "DOS" if i > 0 and s[i - 1] == "\r" else "UNIX"
    return "UNIX"


def ref_force(s, t):
    out, i = [], 0
    while i < len(s):
        if s[i:i + 2] == "\r\n":
            out.append("\n")
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join("\r\n" if ch == "\n" and t == "DOS" else ch for ch in out)


def funcs(s):
    same(find_newline_type(s), ref_style(s), "style")
    b = s.encode("utf-8")
    same(find_newline_type(b), ref_style(s), "style of bytes")
    for t in ("DOS", "UNIX"):
        w = ref_force(s, t)
        same(force_newline_type(s, t), w, "forced to " + t)
        same(force_newline_type(b, t), w.encode("utf-8"), "bytes to " + t)
        if "\r" not in s:
            same(force_newline_type(w, "UNIX"), s, "back to UNIX")
            if "\n" in s:
                same(find_newline_type(w), t, "style of the converted text")


def transcriber(case):
    """the same operations on both renderings give both renderings"""
    u, ops = case

    def run(src):
        t = Transcriber(src)
        for op, a in ops:
            if op == "add":
                t.add(a)
            elif op == "none":
                t.add(None)
            else:
                getattr(t, op)(min(a, len(t.source) - t.ptr))
        return t
    a, b = run(u), run(dos(u))
    same(b.source, a.source, "source seen by the handler")
    same(a.source, u, "source in UNIX style")
    same(b.line_number, a.line_number, "line number")
    for e in (None, "UNIX", "DOS"):
        x, y = a.get_destination(e), b.get_destination(e)
        lf = x.replace("\r\n", "\n")
        expect("\r" not in lf, "stray carriage return")
        same(y.replace("\r\n", "\n"), lf, "text of the two renderings")
        want = "UNIX" if e == "UNIX" else (
            "DOS" if e == "DOS" or "\n" in u else "UNIX")
        mixed = any(o == "add" and "\r" in t for o, t in ops)
        if want == "DOS" or not mixed:
            same(y, dos(lf) if want == "DOS" else lf,
                 "DOS rendering %r" % (e,))
        if e == "DOS" or not mixed:
            same(x, dos(lf) if e == "DOS" else lf,
                 "UNIX rendering %r" % (e,))


def handler(case):
    name, u = case
    H = docs.CLASSES[name]
    t, ss = H().parse(u)
    t2, s2 = H().parse(dos(u))
    same(t2, dos(t), "template of the DOS document")
    same([(s.key, s.context, s.string, s.template_replacement, s.order)
          for s in s2],
         [(s.key, s.context, s.string, s.template_replacement, s.order)
          for s in ss], "strings of the DOS document")
    c = H().compile(t, ss)
    expect("\r" not in c, "carriage return in the compiled UNIX document")
    same(H().compile(t2, s2), dos(c), "compiled DOS document")
    if not (D.n % 4) and "\n" in u:
        # translations with several lines follow the template's style
        tr = [docs.retext(s, s.string + "\n" + s.string) if not s.pluralized
              and name in ("PlaintextHandler", "SrtHandler") else s
              for s in ss]
        c = H().compile(t, tr)
        same(H().compile(t2, tr), dos(c), "translated DOS document")


PARTS = {
    "PlaintextHandler": ["line\n", "\n", "  indented \n", "last", "a\tb\n",
                         "\n\n", "é\n", " \n"],
    "AndroidHandler": None,
}
SMALL = {
    "SrtHandler": ["%d\n00:00:0%d,000 --> 00:00:0%d,500\ntext %s\n%s\n"],
    "VttHandler": [],
}


def plaintext():
    return "".join(r.choice(PARTS["PlaintextHandler"])
                   for _ in range(r.randrange(0, 8)))


def srt():
    out = []
    for i in range(1, r.randrange(2, 6)):
        out.append("%d\n00:00:0%d,000 --> 00:00:0%d,500\n%s" % (
            i, i, i, "\n".join(r.choice(["a", "é b", "- c"])
                               for _ in range(r.randrange(1, 4)))))
    return "\n\n".join(out) + r.choice(["", "\n", "\n\n"])


def vtt():
    return "WEBVTT\n\n" + "\n\n".join(
        "%s00:0%d.000 --> 00:0%d.500\n%s" % (
            r.choice(["", "id%d\n" % i]), i, i,
            "\n".join(r.choice(["a", "é"]) for _ in range(
                r.randrange(1, 3)))) for i in range(r.randrange(1, 5))) + \
        r.choice(["", "\n"])


def android():
    nl = lambda: r.choice(["\n", "\n  ", "\n\n", "\n<!-- c\n d -->\n"])
    items = []
    for i in range(r.randrange(1, 6)):
        k = r.randrange(4)
        if k < 2:
            items.append('<string name="k%d"%s>%s</string>' % (
                i, r.choice(["", "\n  product='x'"]),
                r.choice(["text", "two\n  lines", " é \n"])))
        elif k == 2:
            items.append('<string-array name="k%d">\n<item>a</item>\n'
                         '<item>b\nc</item>\n</string-array>' % i)
        else:
            items.append('<plurals name="k%d">\n<item quantity="one">a</item>'
                         '\n <item quantity="other">b\n</item>\n</plurals>'
                         % i)
    return '<?xml version="1.0"?>\n<resources>' + "".join(
        nl() + x for x in items) + "\n</resources>" + r.choice(["", "\n"])


def jsondoc():
    j = docs.J(r, depth=3)
    return j.text


def yamldoc():
    return "en:\n" + "".join("  k%d: %s\n" % (i, r.choice([
        "plain", '"quoted"', "'single'", "|\n    a\n    b",
        ">\n    a\n    b", "\n    - x\n    - y z"]))
        for i in range(r.randrange(1, 6)))


GEN = {"PlaintextHandler": plaintext, "SrtHandler": srt, "VttHandler": vtt,
       "AndroidHandler": android, "AndroidUnescapedHandler": android,
       "JsonHandler": jsondoc, "YamlHandler": yamldoc,
       "I18nYamlHandler": yamldoc}
FIXDIR = {"AndroidHandler": "android", "BetaAndroidHandler": "beta_android",
          "GithubMarkdownHandler": "github_markdown",
          "JsonHandler": "keyvaluejson", "ArbHandler": "arb",
          "StructuredJsonHandler": "structuredkeyvaluejson",
          "ChromeI18nHandler": "chrome_i18n",
          "ChromeI18nHandlerV3": "chromev3", "PlaintextHandler": "plaintext",
          "SrtHandler": "srt", "VttHandler": "vtt",
          "StringsDictHandler": "stringsdict", "YamlHandler": "yaml",
          "I18nYamlHandler": "yamlinternationalization"}

docs.handler_classes()
for n in range(0, 8 if D.tier == "thorough" else 7):
    for t in itertools.product("a\r\n", repeat=n):
        D.check("functions", "".join(t), funcs)
for s in ["\u2028", "\x85\r\n", "é\r\n", "\x0b\n", "a\r\rb\n", "\r\n" * 50,
          "\n" * 50 + "\r\n", "x" * 5000 + "\r\n", "\ud800\n"[1:]]:
    D.check("functions", s, funcs)
for name, d in FIXDIR.items():
    for f in sorted(glob.glob(docs.FIX + "/" + d + "/files/*_en.*")):
        u = io.open(f, encoding="utf-8", newline="").read()
        if "\r" in u or name not in docs.CLASSES:
            continue
        D.check("handler-fixture", (name, u), handler, key="handler")
OPS = ["copy", "copy", "skip", "add", "add", "none"]
while D.left() > 0 and D.n < (60000 if D.tier == "thorough" else 9000):
    u = "".join(r.choice("ab\n\n é") for _ in range(r.randrange(0, 14)))
    ops = [(o, r.choice(["x", "", "p\nq", "\n", "\n\n", "a\n",
                          "p\r\nq", "p\r\nq\nr", "\n\r\n"])
            if o == "add" else r.randrange(5))
           for o in (r.choice(OPS) for _ in range(r.randrange(0, 7)))]
    D.check("transcriber", (u, ops), transcriber)
    if D.n % 3 == 0:
        n = r.choice(sorted(GEN))
        u = GEN[n]()
        if "\r" not in u:
            try:
                t, ss = docs.CLASSES[n]().parse(u)
            except Exception:
                continue
            D.check("handler", (n, u), handler)
D.finish("texts over {a, CR, LF} to length 7 (exhaustive); random transcriber "
         "sessions and documents in both styles; non-trivial: distinct case")
