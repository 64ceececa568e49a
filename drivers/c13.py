"""C13: escaping and unescaping of texts in XML formats."""
import itertools
from common import Driver, same
from openformats.formats.android import AndroidHandler
from openformats.formats.android_unescaped import AndroidUnescapedHandler
from openformats.formats.stringsdict import StringsDictHandler
from openformats.utils.xml import escape as xml_escape

D = Driver()
r = D.rnd
INLINE = ["xliff:g", "a", "annotation", "b", "em", "i", "cite", "dfn", "big",
          "small", "font", "tt", "s", "strike", "del", "u", "sup", "sub", "ul",
          "li", "br", "div", "span", "p"]
OTHER = ["x", "y", "string", "bb", "xliff", "B"]
CHARS = "@\\'\"n?&>t;g\n< as"


def q(s):
    return s.replace('"', '\\"').replace("'", "\\'")


def special(s):
    for a, b in (("&", "&amp;"), (">", "&gt;"), ("\n", "\\n"), ("\t", "\\t"),
                 ("@", "\\@"), ("?", "\\?")):
        s = s.replace(a, b)
    return s


def android(s):
    e = AndroidHandler.escape(s)
    same(AndroidHandler.unescape(e), s, "unescape(%r)" % e)
    if "<" not in s:
        at = s.startswith("@") and not s.startswith("@string/")
        same(e, q("\\" * at + s), "escape")


def unescaped(s):
    e = AndroidUnescapedHandler.escape(s)
    same(AndroidUnescapedHandler.unescape(e), s, "unescape(%r)" % e)
    if "<" not in s:
        same(e, special(q(s)), "escape")


def sdict(s):
    e = StringsDictHandler.escape(s)
    same(StringsDictHandler.unescape(e), s, "unescape(%r)" % e)
    same("<" in e or ">" in e, False, "no markup left")


def plain():
    return "".join(r.choice(["hello", " ", "'", '"', "@", "?", "&amp;", "é",
                             "a>b", "\n", "%s", "@string/x", "\\n", "q", "="])
                   for _ in range(r.choice([0, 1, 1, 2, 3])))


def tree(depth, esc, any_tag=True):
    """(text, escaped text)"""
    a = plain()
    t, e = a, esc(a)
    for _ in range(r.choice([0, 1, 1, 2]) if depth else 0):
        name = r.choice(INLINE if not any_tag or r.random() < .7 else OTHER)
        inline = name in INLINE
        at = r.choice(["", "", " id=\"1\"", " href='x?a=\"'", " x=\"a\" y='b'"])
        o, c = "<%s%s>" % (name, at), "</%s>" % name
        if r.random() < .2:
            o, c = "<%s%s/>" % (name, at), ""
            it, ie = "", ""
        else:
            it, ie = tree(depth - 1, esc, any_tag)
        t += o + it + c
        e += (o if inline else esc(o)) + ie + (c if inline else esc(c))
        a = plain()
        t += a
        e += esc(a)
    return t, e


def keeps(c):
    """inline tags stay, everything else is escaped piece by piece"""
    t, e = c
    same(xml_escape(t, INLINE, lambda s: s.replace('"', '\\"').replace(
        "'", "\\'")), e, "escaped")


def unkeeps(c):
    t, e = c
    same(AndroidUnescapedHandler.escape(t), e, "escaped")


def flat():
    """inline tags of the top level are kept with all that is in them"""
    out, e, k, pieces = "", "", 0, []
    for _ in range(r.choice([1, 2, 3])):
        a = plain().replace("<", "")
        out += a
        pieces.append(a)
        name = r.choice(INLINE)
        t = "<%s%s>%s</%s>" % (name, r.choice(["", " id=\"1\"", " u='a?b=@'"]),
                              r.choice(["x", "it's", "a?b", "@", ""]), name)
        out += t
        pieces.append(None)
        e += t
    return out


def flat_case():
    ts, t, e = [], "", ""
    for _ in range(r.choice([1, 2, 3])):
        a = r.choice(["hello ", "it's ", "", "what? ", "a@b ", "\"q\" ", "\n"])
        name = r.choice(INLINE)
        tag = "<%s%s>%s</%s>" % (name, r.choice(
            ["", " id=\"1\"", " u='a?b=@'"]), r.choice(
                ["x", "it's", "a?b", "@", ""]), name)
        t += a + tag
        e += special(q(a)) + tag
    return t, e


def cdata_case():
    t, e = "", ""
    for _ in range(r.choice([1, 2])):
        a = r.choice(["hello ", "it's ", "", "a@b ", "\n", "1 > 0 "])
        c = "<![CDATA[" + r.choice(["x", "it's", "a?b", "<b>@</b>", "",
                                    "a > \"b\"\n"]) + "]]>"
        t += a + c
        e += special(q(a)) + q(c)
    return t, e


def cdata(c):
    t, e = c
    same(AndroidUnescapedHandler.escape(t), e, "escaped")
    same(AndroidUnescapedHandler.unescape(e), t, "unescaped")


for k in range(0, 4):
    for t in itertools.product(CHARS, repeat=k):
        s = "".join(t)
        if not s.startswith("\\@"):
            D.check("android", s, android)
        if "\\" not in s:
            D.check("unescaped", s, unescaped)
        D.check("stringsdict", s, sdict)
while D.left() > 0:
    s = "".join(r.choice(CHARS) for _ in range(r.randrange(4, 12)))
    s = r.choice(["", "", "", "@string/", "@"]) + s
    if not s.startswith("\\@"):
        D.check("android", s, android)
    s2 = s.replace("\\", "")
    D.check("unescaped", s2, unescaped)
    D.check("stringsdict", s + r.choice(["", "&amp;", "&lt;", "]]>"]), sdict)
    D.check("tags", tree(r.choice([1, 2, 3]), q), keeps)
    D.check("inline", flat_case(), unkeeps)
    D.check("cdata", cdata_case(), cdata)
D.finish("all texts of up to 3 characters of %r, random longer ones; texts "
         "with tags, inline tags and CDATA sections" % CHARS)
