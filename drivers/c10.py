"""C10: plain text files and in-order compilation."""
from common import Driver, expect, same
from docs import Doc, check_doc, retext, md5id
from openformats.formats.plaintext import PlaintextHandler
from openformats.utils.compilers import OrderedCompilerMixin
from openformats.handlers import Handler
from openformats.strings import OpenString

D = Driver()
r = D.rnd
W = ["Hello", "é world", "a", "aa", "a a", "1", "- x", "<b>", "日本", "\\n",
     "a\tb", "\U0001f600", "0", "x" * 40, "aba", "{}", "%s", "a\u00a0b",
     "a\x0bb", "\\", "$1", "\\1", "\\g<0>"]
SP = ["", "", "", " ", "  ", "\t", "\u00a0", "\u3000", " \t ", "\x0c"]


def line():
    if r.random() < .2:
        return r.choice(["", "", " ", "\t", "  \t", "\u00a0", "\u2028"])
    return r.choice(SP) + " ".join(
        r.choice(W) for _ in range(r.choice([1, 1, 2, 3]))) + r.choice(SP)


def expected(lines, nl):
    d, n = Doc(), 0
    for i, x in enumerate(lines):
        if i:
            d.put(nl)
        s = x.strip()
        if not s:
            d.put(x)
            continue
        a = x.index(s)
        d.put(x[:a])
        d.string(s, str(n), order=n)
        d.put(x[a + len(s):])
        n += 1
    return d


def unix(text):
    d = expected(text.split("\n"), "\n")
    check_doc(PlaintextHandler, d, same, expect,
              translate=lambda s: retext(s, r.choice(
                  ["T", "", "a b", s.string * 2, "\\1", "x\ny", " lead "])))


def dosdoc(text):
    d = expected(text.split("\r\n"), "\r\n")
    check_doc(PlaintextHandler, d, same, expect)


def anytext(text):
    """any mixture of line ends: the first newline tells the separator"""
    i = text.find("\n")
    nl = "\r\n" if i > 0 and text[i - 1] == "\r" else "\n"
    d = expected(text.split(nl), nl)
    t, ss = PlaintextHandler().parse(text)
    same([(s.key, s.string) for s in ss], [(x[2], x[3]) for x in d.spans],
         "strings")
    same(t, d.fill(d.ids()), "template")


class Mixin(OrderedCompilerMixin, Handler):
    pass


def mixed(case):
    """templates with strings in order"""
    parts, want, ss = [], [], []
    for k, text, lead, tail in case:
        s = OpenString(k, text)
        ss.append(s)
        parts.append(lead + s.template_replacement + tail)
        want.append(lead + text + tail)
    same(Mixin().compile("top" + "".join(parts) + "end", iter(ss)),
         "top" + "".join(want) + "end", "compile in order")


def case():
    return [("k%d" % i, r.choice(W + ["", "\n", "a\nb"]),
             r.choice(["", "  ", "a ", "\t", "\n"]),
             r.choice(["", " ", " z", "\n\n"]))
            for i in range(r.choice([1, 2, 3, 4]))]


for text in ["", "\n", "a", " a ", "\n\n", "a\n", "\na", "a\na\na",
             "aa\na\naaa", "\r\n", "a\r\nb", "\r\na\r\n"]:
    D.check("fixed", text, lambda t: dosdoc(t) if "\r\n" in t else unix(t))
limit = 80000 if D.tier == "thorough" else 20000
while D.left() > 0 and D.n < limit:
    t = "\n".join(line() for _ in range(r.choice([0, 1, 2, 3, 5, 9])))
    D.check("unix", t, unix)
    if "\n" in t:
        D.check("dos", t.replace("\n", "\r\n"), dosdoc)
    D.check("in-order", case(), mixed)
    D.check("any", "".join(r.choice(["\n", "\n", "\r\n", "\r", " ", "a", "b",
                                     "a b"])
                           for _ in range(r.choice([2, 3, 5, 8, 13]))),
            anytext)
D.finish("random text files; templates with strings in order; non-trivial: distinct file or template")
