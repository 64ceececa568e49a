"""Contracts: escaping and unescaping of Android texts"""
import z3

from pyvc import core
from pyvc.core import sv, substr, suffix
from pyvc.contracts import Contract, Lemma
from pyvc.interp import Unsupported, FuncV, BoundV
from pyvc.models import repl_fn

A = "openformats.formats.android"
AU = "openformats.formats.android_unescaped"
X = "openformats.utils.xml"
QESC = core.flatmap("escape_quotes", {'"': '\\"', "'": "\\'"})
DESC = core.flatmap("escape_double_quotes", {'"': '\\"'})
SPEC = core.flatmap("escape_special", {
    "&": "&amp;", ">": "&gt;", "\n": "\\n", "\t": "\\t", "@": "\\@",
    "?": "\\?"})
UN1 = repl_fn("\\'", "'")
UN2 = repl_fn('\\"', '"')
AT, BAT = z3.StringVal("@"), z3.StringVal("\\@")
REF = z3.StringVal("@string/")


class QuoteLemma(Lemma):
    """removing the backslash before quotes undoes adding it: by induction on
    the text, from its end; and an escaped text starts with no quote"""
    name = "lemma.quotes"

    def vcs(self):
        o, c = z3.Strings("o c")
        one = z3.Length(c) == 1
        yield "base", [], z3.And(UN1(QESC("")) == DESC(""),
                                 UN2(DESC("")) == "")
        ih = UN1(QESC(o)) == DESC(o)
        yield "' last", [ih], UN1(z3.Concat(QESC(o), z3.StringVal(
            "\\'"))) == z3.Concat(DESC(o), z3.StringVal("'"))
        b = z3.Concat(QESC(o), z3.StringVal("\\"))
        yield 'before "', [ih], UN1(b) == z3.Concat(DESC(o), z3.StringVal(
            "\\"))
        yield '" last', [UN1(b) == z3.Concat(DESC(o), z3.StringVal("\\"))], \
            UN1(z3.Concat(QESC(o), z3.StringVal('\\"'))) == z3.Concat(
                DESC(o), z3.StringVal('\\"'))
        yield "other last", [ih, one, c != "'", c != '"'], UN1(
            z3.Concat(QESC(o), c)) == z3.Concat(DESC(o), c)
        ih = UN2(DESC(o)) == o
        yield '" last, second', [ih], UN2(z3.Concat(DESC(o), z3.StringVal(
            '\\"'))) == z3.Concat(o, z3.StringVal('"'))
        yield "other last, second", [ih, one, c != '"'], UN2(
            z3.Concat(DESC(o), c)) == z3.Concat(o, c)
        r = z3.String("r")
        for ch in "\"'":
            yield "%r first" % ch, [], substr(z3.Concat(
                z3.StringVal(QESC.py(ch)), r), 0, 1) == "\\"
        yield "other first", [one, c != "'", c != '"'], substr(
            z3.Concat(c, r), 0, 1) == c


def facts(s):
    """lemma.quotes: unescaping, and how an escaped text begins"""
    e = QESC(s)
    f = substr(e, 0, 1)
    return z3.And(UN1(e) == DESC(s), UN2(DESC(s)) == s, f != '"', f != "'",
                  (e == "") == (s == ""),
                  # quotes apart, the front of the text stays
                  z3.PrefixOf(AT, e) == z3.PrefixOf(AT, s),
                  z3.PrefixOf(BAT, e) == z3.PrefixOf(BAT, s))


class FrontLemma(Lemma):
    """what an escaped text starts with (front part of lemma.quotes: the
    image of the first character is followed by the image of the rest)"""
    name = "lemma.escaped-front"

    def vcs(self):
        c, d, r, q = z3.Strings("c d r q")
        one = [z3.Length(c) == 1, z3.Length(d) == 1]
        no = [c != "'", c != '"']
        E = z3.StringVal

        def front(s, e):
            return z3.And(z3.PrefixOf(AT, e) == z3.PrefixOf(AT, s),
                          z3.PrefixOf(BAT, e) == z3.PrefixOf(BAT, s),
                          substr(e, 0, 1) != '"', substr(e, 0, 1) != "'")
        yield "empty", [], front(E(""), E(""))
        for ch in "\"'":
            w = E("\\" + ch)
            yield "%r" % ch, [], front(z3.Concat(E(ch), r), z3.Concat(w, q))
            yield "other, then %r" % ch, one + no, front(
                z3.Concat(c, E(ch), r), z3.Concat(c, w, q))
        yield "one other", one + no, front(c, c)
        yield "two others", one + no + [d != "'", d != '"'], front(
            z3.Concat(c, d, r), z3.Concat(c, d, q))


class Special(Contract):
    """every special character gets its escape, nothing else changes"""
    module, func = AU, "AndroidUnescapedHandler.escape_special_characters"

    def setup(self, ex):
        s = z3.String("s")
        return [s], {}, {"s": s}

    def ret(self, ex, env, v):
        ex.require("each special character escaped, the rest unchanged",
                   sv(v) == SPEC(env["s"]) if ex.is_str(v) else False)

    def call(self, ex, args, kwargs):
        return SPEC(sv(ex.resolve_any(args[-1])))


class XmlEscape(Contract):
    """bounded (c13): a text without tags is given to the function"""
    module, func = X, "escape"
    assumed = True

    def call(self, ex, args, kwargs):
        s, f = ex.resolve_any(args[0]), args[2]
        if not ex.is_str(s):
            raise Unsupported("xml escape of a non-text")
        if not ex.entails(z3.Not(z3.Contains(sv(s), z3.StringVal("<")))):
            raise Unsupported("xml escape of a text with tags")
        ex.trusted.add("utils.xml.escape gives a text without '<' to the "
                       "escaping function (evaluated by drivers/c13.py)")
        return ex.call(f, [s])


class Escape(Contract):
    """quotes get a backslash, a leading at-sign that is no reference too;
    proved for texts without tags"""
    module, func = A, "AndroidHandler.escape"

    def setup(self, ex):
        s = z3.String("s")
        ex.assume(z3.Not(z3.Contains(s, z3.StringVal("<"))))
        return [s], {}, {"s": s}

    def spec(self, s):
        at = z3.And(z3.PrefixOf(AT, s), z3.Not(z3.PrefixOf(REF, s)))
        return z3.If(at, QESC(z3.Concat(z3.StringVal("\\"), s)), QESC(s))

    def ret(self, ex, env, v):
        ex.require("quotes and a leading at-sign escaped, the rest "
                   "unchanged", sv(v) == self.spec(env["s"])
                   if ex.is_str(v) else False)

    def call(self, ex, args, kwargs):
        s = sv(ex.resolve_any(args[-1]))
        if not ex.entails(z3.Not(z3.Contains(s, z3.StringVal("<")))):
            raise Unsupported("escape of a text with tags")
        return self.spec(s)


class Unescape(Contract):
    """unescaping an escaped text gives the text back"""
    module, func = A, "AndroidHandler.unescape"

    def setup(self, ex):
        s = z3.String("s")
        at = ex.branch(z3.Bool("leading_at_escaped"))
        ex.assume(facts(s))
        if at:
            ex.assume(z3.And(z3.PrefixOf(AT, s),
                             z3.Not(z3.PrefixOf(REF, s))))
            e = z3.Concat(z3.StringVal("\\"), QESC(s))
        else:
            ex.assume(z3.And(z3.Not(z3.PrefixOf(BAT, s)), z3.Implies(
                z3.PrefixOf(AT, s), z3.PrefixOf(REF, s))))
            e = QESC(s)
        ex.spec_state["s"] = s
        return [e], {}, {"s": s, "e": e}

    def ret(self, ex, env, v):
        ex.require("the text that was escaped", sv(v) == env["s"]
                   if ex.is_str(v) else False)


class QuotesOnly(Contract):
    """like AndroidHandler.escape, but a leading at-sign stays"""
    module, func = AU, "AndroidUnescapedHandler._escape_quotes"

    def setup(self, ex):
        s = z3.String("s")
        ex.assume(z3.Not(z3.Contains(s, z3.StringVal("<"))))
        ex.assume(facts(s))
        return [s], {}, {"s": s}

    def ret(self, ex, env, v):
        ex.require("only quotes are escaped", sv(v) == QESC(env["s"])
                   if ex.is_str(v) else False)


CONTRACTS = [Special(), XmlEscape(), Escape(), Unescape(), QuotesOnly()]
LEMMAS = [QuoteLemma(), FrontLemma()]
HOMS = []
