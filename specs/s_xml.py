"""Contracts: openformats/utils/xml.py  NewDumbXml

An element is known by its source S and the place `a` where it was looked for.
What it says about itself are functions of these two:
  P   = a + N0(S[a:])         the next "<" outside CDATA sections
  tag = "!--" for a comment, else S[P+1 : P+1+NAME(S[P+1:])]
  q   = P + 1 + len(tag) + ATTRS(...)   where the opening tag's attributes end
  text, content, tail: the slices of S between the positions
CLOSE / AFTERTAG stand for where the element's content ends and where its
closing tag ends, as found by iterating over its children."""
import z3

from pyvc import core
from pyvc.core import (Val, SufRec, sv, iv, sl, suffix, prefix, cat, substr,
                       Str, Int, Bool)
from pyvc.contracts import Contract, Lemma, positions, as_int
from pyvc.interp import PathEnd, Obj, ListV, DictV, SymLst, SymAny, Unsupported, UNBOUND
from pyvc.models import ALLWS, IterV, ws_char

M = "openformats.utils.xml"
CD, CE = "<![CDATA[", "]]>"


class Dist(SufRec):
    """a distance from the front of a text"""

    def instances(self, t, points):
        out = SufRec.instances(self, t, points)
        if not z3.is_string_value(t):
            out += self.facts(t)        # lemma.distances
        return out

    def facts(self, t):
        n = self.f(t)
        return [n >= 0, n <= z3.Length(t)]


def _n(s, cd):
    i = 0
    while i < len(s):
        if cd:
            if s.startswith(CE, i):
                cd = False
        elif s[i] == "<":
            if not s.startswith(CD, i):
                return i
            cd = True
        i += 1
    return i


class LT(Dist):
    plain = False           # without what lemma.distances adds

    def facts(self, t):
        n = self.f(t)
        if LT.plain:
            return Dist.facts(self, t)
        return Dist.facts(self, t) + [z3.Implies(
            n < z3.Length(t), z3.And(substr(t, n, 1) == "<",
                                     substr(t, n, len(CD)) != CD))]


N0 = LT("to_next_tag", Int, lambda n, at, rest: z3.If(
    n <= 0, 0, z3.If(
        at(0) == "<",
        z3.If(at(0, len(CD)) == CD, 1 + N1.f(rest(1).arg(0)), z3.IntVal(0)),
        1 + rest(1))), lambda s: _n(s, False))
N1 = LT("to_next_tag_in_cdata", Int, lambda n, at, rest: z3.If(
    n <= 0, 0, z3.If(at(0, len(CE)) == CE, 1 + N0.f(rest(1).arg(0)),
                     1 + rest(1))), lambda s: _n(s, True))


def delim(c):
    return z3.Or(c == "/", c == ">", ws_char(c))


def _name(s):
    for i, c in enumerate(s):
        if c in "/>" or c.isspace():
            return i
    return len(s)


class Name(Dist):
    def facts(self, t):
        n = self.f(t)
        return Dist.facts(self, t) + [z3.Implies(
            n < z3.Length(t), delim(substr(t, n, 1)))]


NAME = Name("tag_name_length", Int, lambda n, at, rest: z3.If(
    n <= 0, 0, z3.If(delim(at(0)), z3.IntVal(0), 1 + rest(1))), _name)


def _comment(s):
    return s.find("-->") if "-->" in s else len(s)


class Comm(Dist):
    def facts(self, t):
        n = self.f(t)
        return Dist.facts(self, t) + [z3.Implies(
            n < z3.Length(t), substr(t, n, 3) == "-->")]


COMM = Comm("comment_length", Int, lambda n, at, rest: z3.If(
    n <= 0, 0, z3.If(z3.And(at(0) == "-", at(0, 3) == "-->"), z3.IntVal(0),
                     1 + rest(1))), _comment)


# attributes: between them, in a name, before a value, in a value
def _attrs(s, st):
    for i, c in enumerate(s):
        if st == 0:
            if c in "/>":
                return i
            if not c.isspace():
                st = 1
        elif st == 1:
            if c == "=":
                st = 2
        elif st == 2:
            if c in "'\"":
                st = c
        elif c == st:
            st = 0
    return len(s)


class Att(Dist):
    def facts(self, t):
        n = self.f(t)
        c = substr(t, n, 1)
        return Dist.facts(self, t) + [z3.Implies(
            n < z3.Length(t), z3.Or(c == "/", c == ">"))]


def _go(x, f):
    return lambda rest: 1 + x().f(rest(1).arg(0))


A0 = Att("attributes_end", Int, lambda n, at, rest: z3.If(
    n <= 0, 0, z3.If(z3.Or(at(0) == "/", at(0) == ">"), z3.IntVal(0), z3.If(
        ws_char(at(0)), 1 + rest(1), 1 + A1.f(rest(1).arg(0))))),
    lambda s: _attrs(s, 0))
A1 = Att("attributes_end_in_name", Int, lambda n, at, rest: z3.If(
    n <= 0, 0, z3.If(at(0) == "=", 1 + A2.f(rest(1).arg(0)), 1 + rest(1))),
    lambda s: _attrs(s, 1))
A2 = Att("attributes_end_before_value", Int, lambda n, at, rest: z3.If(
    n <= 0, 0, z3.If(
        at(0) == "'", 1 + A3.f(rest(1).arg(0)), z3.If(
            at(0) == '"', 1 + A4.f(rest(1).arg(0)), 1 + rest(1)))),
    lambda s: _attrs(s, 2))
A3 = Att("attributes_end_in_value1", Int, lambda n, at, rest: z3.If(
    n <= 0, 0, z3.If(at(0) == "'", 1 + A0.f(rest(1).arg(0)), 1 + rest(1))),
    lambda s: _attrs(s, "'"))
A4 = Att("attributes_end_in_value2", Int, lambda n, at, rest: z3.If(
    n <= 0, 0, z3.If(at(0) == '"', 1 + A0.f(rest(1).arg(0)), 1 + rest(1))),
    lambda s: _attrs(s, '"'))

FSM = {"A": [N0, N1], "B": [NAME], "C": [COMM], "D": [A0, A1, A2, A3, A4]}


class Distances(Lemma):
    """a distance never leaves the text and ends at what was looked for: by
    induction on the rest of the text"""
    name = "lemma.distances"

    def vcs(self):
        for group in FSM.values():
            t = z3.String("t")
            n = z3.Length(t)
            rest1 = substr(t, 1, n - 1)
            ih = []
            for f in group:
                ih += [z3.Implies(n > 0, z3.And(f.facts(rest1)))]

            def at(k, m=1):
                return substr(t, k, m)
            for f in group:
                def rest(k, f=f):
                    return f.f(substr(t, k, n - k))
                d = f.f(t)
                hyps = ih + [d == f.body(n, at, rest), substr(
                    rest1, d - 1, 1) == substr(t, d, 1), substr(
                    rest1, d - 1, 3) == substr(t, d, 3), substr(
                    rest1, d - 1, 9) == substr(t, d, 9)]
                yield f.name, hyps, z3.And(f.facts(t))
            # the two hypotheses about slices
            d = z3.Int("d")
            yield "slice of the rest", [n > 0, d >= 1], z3.And(
                substr(rest1, d - 1, 1) == substr(t, d, 1),
                substr(rest1, d - 1, 3) == substr(t, d, 3),
                substr(rest1, d - 1, 9) == substr(t, d, 9))


class NoComment(Lemma):
    """a tag that is no comment is not named like one"""
    name = "lemma.no-comment"

    def vcs(self):
        S, (p, n) = z3.String("S"), z3.Ints("p n")
        yield "tag", [0 <= p, p < z3.Length(S), substr(S, p, 1) == "<",
                      z3.Not(substr(S, p, 4) == "<!--")], \
            substr(S, p + 1, n) != "!--"


# --------------------------------------------------------------- elements
CLOSE = z3.Function("xml_content_end", Str, Int, Int)
AFTERTAG = z3.Function("xml_tail_position", Str, Int, Int)
ATTRLIST = z3.Function("xml_attributes", Str, Int, core.Lst)
XERR = "DumbXmlSyntaxError"


def pos(S, a):
    return a + N0(suffix(S, a))


def cls(ex):
    return ex.global_(ex.world.module(M), "NewDumbXml")


def not_cached(ex):
    return ex.getattr(cls(ex), "NOT_CACHED")


def xerr(ex):
    ex.raise_(ex.global_(ex.world.module(M), XERR))


def path_end(why):
    raise PathEnd()


class Elem(Obj):
    """an element that was constructed: its tag is known; whatever else was
    asked for already is remembered, and right"""

    def __init__(self, ex, S, a, P=None):
        Obj.__init__(self, ex, cls(ex))
        self.S, self.a = S, a
        self.n = n = z3.Length(S)
        self._q = None
        ex.hset(self, "source", S)
        ex.hset(self, "start", a)
        self.P = ex.named(pos(S, a), "P") if P is None else P
        ex.assume(z3.And(iv(a) <= self.P, self.P < n,
                         substr(S, self.P, 1) == "<"))
        self.comment = ex.branch(substr(S, self.P, 4) == "<!--")
        ex.hset(self, "_position", self.P)
        if self.comment:
            self.tag = "!--"
            self.tp = self.P + 4
            self.ce = ex.named(self.tp + COMM(suffix(S, self.tp)), "ce")
            ex.assume(z3.And(self.tp <= self.ce, self.ce + 3 <= n,
                             substr(S, self.ce, 3) == "-->"))
            self.text = sl(S, self.tp, self.ce)
            self.tlp = self.ce + 3
            self.single = False
            for k, v in (("_attrib_string", ""), ("_text_position", self.tp),
                         ("_content_end", self.ce), ("_text", self.text),
                         ("_tail_position", self.tlp)):
                ex.hset(self, k, v)
            ex.hset(self, "_attributes", ListV(ex, ()))
            ex.hset(self, "_attrib", DictV(ex, {}))
        else:
            nl = self.nl = ex.named(NAME(suffix(S, self.P + 1)), "nl")
            ex.assume(z3.And(nl >= 0, self.P + 1 + nl < n,
                             delim(substr(S, self.P + 1 + nl, 1))))
            self.tag = substr(S, self.P + 1, nl)
            ex.assume(self.tag != "!--")        # lemma.no-comment
        ex.hset(self, "_tag", self.tag)

    def asked(self, ex, what):
        return ex.branch(z3.Bool("asked_" + what))

    def get_attr(self, ex, name):
        f = getattr(self, "lazy_" + name, None)
        if f is None:
            return NotImplemented
        f(ex)
        return ex.heap[(self.oid, name)]

    def fill(self, ex, **kw):
        for k, v in kw.items():
            if (self.oid, k) not in ex.heap:
                ex.heap[(self.oid, k)] = v

    # ---- opening tag
    def opening(self, ex):
        """the opening tag was read: q is where its attributes end"""
        if self._q is None:
            S = self.S
            k = self.k = self.P + 1 + self.nl
            q = ex.named(k + A0(suffix(S, k)), "q")
            ex.assume(z3.And(k <= q, q < self.n, z3.Or(
                substr(S, q, 1) == "/", substr(S, q, 1) == ">")))
            self._q = q
        return self._q

    def lazy__attributes(self, ex):
        if self.asked(ex, "attributes"):
            q = self.opening(ex)
            self.fill(ex, _attributes=ListV(ex, SymLst(ATTRLIST(
                self.S, iv(self.a)), "any")),
                _attrib_string=sl(self.S, self.k, q))
        else:
            nc = not_cached(ex)
            self.fill(ex, _attributes=nc, _attrib_string=nc, _attrib=nc)

    lazy__attrib_string = lazy__attributes

    def lazy__attrib(self, ex):
        ex.getattr(self, "_attributes")
        if (self.oid, "_attrib") in ex.heap:
            return
        if self.asked(ex, "attrib"):
            self.fill(ex, _attrib=Attrib(ex, self))
        else:
            self.fill(ex, _attrib=not_cached(ex))

    # ---- content
    def is_single(self, ex):
        """<a ... />: sets where it ends"""
        q, S = self.opening(ex), self.S
        if not hasattr(self, "single"):
            self.single = ex.branch(substr(S, q, 1) == "/")
            if self.single:
                e = self.tlp = ex.fresh("int", "after")
                ex.assume(z3.And(q + 2 <= e, e <= self.n, e == AFTERTAG(
                    S, iv(self.a)), substr(S, e - 1, 1) == ">",
                    ALLWS(sl(S, q + 1, e - 1))))
            else:
                self.tp = q + 1
        return self.single

    def lazy__text_position(self, ex):
        if self.asked(ex, "text_position"):
            ex.getattr(self, "_attributes")
            if ex.heap[(self.oid, "_attributes")] is not_cached(ex):
                path_end("attributes come before text_position")
            if self.is_single(ex):
                self.fill(ex, _text_position=None, _tail_position=self.tlp)
            else:
                self.fill(ex, _text_position=self.tp)
        else:
            self.fill(ex, _text_position=not_cached(ex))

    def the_text(self, ex):
        """there is a next tag; the text goes up to it"""
        S = self.S
        if not hasattr(self, "first"):
            e = self.first = ex.named(pos(S, self.tp), "first")
            ex.assume(z3.And(self.tp <= e, e < self.n,
                             substr(S, e, 1) == "<"))
            self.text = sl(S, self.tp, e)
        return self.text

    def lazy__text(self, ex):
        if self.asked(ex, "text"):
            tp = ex.getattr(self, "_text_position")
            if tp is not_cached(ex):
                path_end("text_position comes before text")
            self.fill(ex, _text=None if tp is None else self.the_text(ex))
        else:
            self.fill(ex, _text=not_cached(ex))

    # ---- closing tag
    def closing(self, ex):
        S = self.S
        if not hasattr(self, "ce"):
            self.the_text(ex)
            ce, e = CLOSE(S, iv(self.a)), AFTERTAG(S, iv(self.a))
            self.ce, self.tlp = ex.named(ce, "ce"), ex.named(e, "after")
            ex.assume(z3.And(*[f for _, f in closed(self, self.ce, self.tlp)]))

    def lazy__content_end(self, ex):
        if self.asked(ex, "content"):
            t = ex.getattr(self, "_text")
            if t is not_cached(ex) or t is None:
                path_end("text comes before content")
            self.closing(ex)
            self.fill(ex, _content_end=self.ce, _tail_position=self.tlp)
        else:
            tp = ex.getattr(self, "_text_position")
            self.fill(ex, _content_end=not_cached(ex),
                      _tail_position=not_cached(ex))

    def lazy__tail_position(self, ex):
        ex.getattr(self, "_text_position")
        ex.getattr(self, "_content_end")
        self.fill(ex, _tail_position=not_cached(ex))

    def lazy__tail(self, ex):
        if self.asked(ex, "tail"):
            tlp = ex.getattr(self, "_tail_position")
            if tlp is not_cached(ex):
                path_end("tail_position comes before tail")
            self.fill(ex, _tail=self.the_tail(ex))
        else:
            self.fill(ex, _tail=not_cached(ex))

    def the_tail(self, ex):
        if not hasattr(self, "end"):
            self.end = ex.named(pos(self.S, self.tlp), "end")
            ex.assume(z3.And(self.tlp <= self.end, self.end <= self.n))
        return sl(self.S, self.tlp, self.end)


def closed(el, ce, after):
    """the content ends at ce with the closing tag, which ends at `after`"""
    S, k = el.S, el.nl
    return [
        ("positions", z3.And(el.first <= ce, ce + 2 + k < after,
                             after <= el.n)),
        ("<", substr(S, ce, 1) == "<"), ("/", substr(S, ce + 1, 1) == "/"),
        ("tag", substr(S, ce + 2, k) == el.tag),
        ("white space", ALLWS(sl(S, ce + 2 + k, after - 1))),
        (">", substr(S, after - 1, 1) == ">")]


class Attrib(Obj):
    """the attributes by name"""

    def __init__(self, ex, el):
        Obj.__init__(self, ex, "attrib")
        self.el = el


class FindNextLt(Contract):
    module, func = M, "NewDumbXml._find_next_lt"
    hom_points = 10

    def __init__(self):
        self.templates = [self.dist]

    def setup(self, ex):
        S, a = z3.String("S"), z3.Int("a")
        ex.assume(z3.And(0 <= a, a <= z3.Length(S)))
        o = Obj(ex, cls(ex))
        ex.hset(o, "source", S)
        return [o, a], {}, {"S": S, "a": a}

    def run(self, ex):
        LT.plain = True
        try:
            Contract.run(self, ex)
        finally:
            LT.plain = False

    def dist(self, ex, st):
        S, a = z3.String("S"), z3.Int("a")
        out = []
        for pn, pg in positions(ex, st):
            for loc in st.locs(lambda v: ex.is_bool(v)):
                for sign in (True, False):
                    def f(s, l=loc, pg=pg, sign=sign):
                        b = s.get(l)
                        if not ex.is_bool(b):
                            return None
                        b = b if sign else ex.neg(b)
                        r = suffix(S, pg(s))
                        return pg(s) + z3.If(b, N1(r), N0(r)) == a + N0(
                            suffix(S, a))
                    out.append(("spec:dist(%s,%s,%s)" % (pn, loc, sign), f))
        return out

    def ret(self, ex, env, v):
        ok = ex.is_int(v)
        ex.require("the next tag outside CDATA sections, or the end",
                   iv(v) == env["a"] + N0(suffix(env["S"], env["a"]))
                   if ok else False)

    def call(self, ex, args, kwargs):
        S = sv(ex.hget(args[0], "source"))
        a = args[1]
        ex.require("_find_next_lt: inside the source", z3.And(
            0 <= iv(a), iv(a) <= z3.Length(S)))
        r = ex.named(a + N0(suffix(S, a)), "lt")
        ex.assume(z3.And(iv(a) <= r, r <= z3.Length(S), z3.Implies(
            r < z3.Length(S), substr(S, r, 1) == "<")))
        return r


class Position(Contract):
    module, func = M, "NewDumbXml.position"

    def setup(self, ex):
        S, a = z3.String("S"), z3.Int("a")
        ex.assume(z3.And(0 <= a, a <= z3.Length(S)))
        o = Obj(ex, cls(ex))
        ex.hset(o, "source", S)
        ex.hset(o, "start", a)
        ex.hset(o, "_position", not_cached(ex) if ex.branch(
            z3.Bool("new")) else pos(S, a))
        return [o], {}, {"S": S, "a": a, "o": o}

    def ret(self, ex, env, v):
        ok = ex.is_int(v)
        ex.require("where the tag starts", iv(v) == pos(env["S"], env["a"])
                   if ok else False)
        c = ex.hget(env["o"], "_position")
        ex.require("is remembered", iv(c) == pos(env["S"], env["a"])
                   if ex.is_int(c) else False)


def ws_run(ex, st):
    """only white space was passed since the loop began"""
    S = z3.String("S")
    out = []
    for loc in st.locs(lambda v: ex.is_int(v)):
        e = st.entry.get(loc)
        if e is not None and ex.is_int(e):
            out.append(("spec:ws %s" % (loc,), lambda s, loc=loc, e=iv(e):
                        ALLWS(sl(S, e, as_int(s, loc)))))
    return out


def keeps(fs):
    """what is looked for stays where it is while the position moves on"""
    def tmpl(ex, st):
        S = z3.String("S")
        out = []
        ps = positions(ex, st)
        for pn, pg in ps:
            for loc in st.locs(lambda v: ex.is_int(v)):
                e = st.entry.get(loc)
                if e is None or not ex.is_int(e):
                    continue
                for f in fs:
                    out.append(("spec:keeps %s %s from %s" % (f.name, pn, loc),
                                lambda s, pg=pg, f=f, e=iv(e): pg(s) + f(
                                    suffix(S, pg(s))) == e + f(suffix(S, e))))
        return out
    return tmpl


class Init(Contract):
    """the constructor: the tag is found and named, or it is a syntax error"""
    module, func = M, "NewDumbXml.__init__"
    class_ctor = "NewDumbXml"
    allowed_exc = (XERR,)
    templates = [keeps([COMM, NAME])]
    no_contracts = tuple(M + ".NewDumbXml." + x for x in (
        "tag", "text_position", "attributes", "attrib"))

    def setup(self, ex):
        S, a = z3.String("S"), z3.Int("a")
        ex.assume(z3.And(0 <= a, a <= z3.Length(S)))
        return [Obj(ex, cls(ex)), S, a], {}, {}

    def run(self, ex):
        args, _, env = self.setup(ex)
        from pyvc.interp import PyRaise
        try:
            ex.call_func(ex.find_func(self.module, self.func), args, {})
        except PyRaise as r:
            self.exc(ex, env, r)
            ex.cover()
            return
        o, S, a = args
        want = Elem(ex, S, a)
        nc = not_cached(ex)
        for f in ("_position", "_tag", "_attrib_string", "_text_position",
                  "_content_end", "_text", "_tail_position"):
            v, w = ex.hget(o, f), ex.hget(want, f, nc)
            if w is nc:
                ex.require("%s: not asked for yet" % f, v is nc)
            else:
                ex.require("%s is right from the start" % f,
                           v is not nc and v is not None and
                           ex.eq(v, w))
        for f in ("_attributes", "_attrib"):
            v = ex.hget(o, f)
            if want.comment:
                ex.require("%s of a comment" % f, isinstance(v, Obj) and
                           ex.content(v) in ((), {}))
            else:
                ex.require("%s: not asked for yet" % f, v is nc)
        ex.require("_tail: not asked for yet", ex.hget(o, "_tail") is nc)
        ex.cover()

    def call(self, ex, args, kwargs):
        S = sv(ex.resolve_any(args[0]))
        a = ex.resolve_any(args[1] if len(args) > 1 else
                           kwargs.get("start", 0))
        ex.require("NewDumbXml: inside the source", z3.And(
            0 <= iv(a), iv(a) <= z3.Length(S)))
        if ex.choose([True] * 2):
            xerr(ex)
        return Elem(ex, S, ex.named(iv(a), "a"))


class Prop(Contract):
    """a property of an element"""
    module = M
    allowed_exc = (XERR,)
    unroll = True
    prop = None

    def __init__(self):
        self.func = "NewDumbXml." + self.prop

    def setup(self, ex):
        S, a = z3.String("S"), z3.Int("a")
        ex.assume(z3.And(0 <= a, a <= z3.Length(S)))
        el = Elem(ex, S, a)
        return [el], {}, {"el": el}

    def call(self, ex, args, kwargs):
        el = args[0]
        v = ex.hget(el, "_" + self.prop, None)
        if (el.oid, "_" + self.prop) in ex.heap and v is not not_cached(ex):
            return v
        if not el.comment and ex.choose([True] * 2):
            xerr(ex)
        return self.give(ex, el)


class Attributes(Prop):
    """bounded (c11): reading the attributes of an opening tag"""
    prop = "attributes"
    assumed = True

    def call(self, ex, args, kwargs):
        ex.trusted.add("NewDumbXml.attributes: stops at the '/' or '>' that "
                       "ends the opening tag; evaluated by drivers/c11.py")
        return Prop.call(self, ex, args, kwargs)

    def give(self, ex, el):
        q = el.opening(ex)
        ex.hset(el, "_attributes", ListV(ex, SymLst(ATTRLIST(
            el.S, iv(el.a)), "any")))
        ex.hset(el, "_attrib_string", sl(el.S, el.k, q))
        return ex.hget(el, "_attributes")


class AttribDict(Attributes):
    """the same as a dictionary"""
    prop = "attrib"

    def give(self, ex, el):
        Attributes.give(self, ex, el)
        ex.hset(el, "_attrib", Attrib(ex, el))
        return ex.hget(el, "_attrib")


class Known(Prop):
    """a property whose value is known from the start"""

    def ret(self, ex, env, v):
        el = env["el"]
        want = self.value(ex, el)
        ex.require("%s: %s" % (self.prop, self.says), False if (
            v is None) != (want is None) else True if v is None else
            ex.eq(v, want))

    def give(self, ex, el):
        v = self.value(ex, el)
        ex.hset(el, "_" + self.prop, v)
        return v


class Tag(Known):
    prop, says = "tag", "the name of the tag, as it stands in the source"

    def value(self, ex, el):
        return el.tag


class TextPosition(Known):
    prop = "text_position"
    templates = [ws_run]
    says = "after the opening tag; a single tag has none"

    def value(self, ex, el):
        if el.comment:
            return el.tp
        return None if el.is_single(ex) else el.tp

    def setup(self, ex):
        return Prop.setup(self, ex)

    def ret(self, ex, env, v):
        el = env["el"]
        if el.comment:
            return Known.ret(self, ex, env, v)
        q, S = el.opening(ex), el.S
        if v is None:
            e = ex.hget(el, "_tail_position")
            ok = ex.is_int(e)
            ex.require("a single tag: ends with its '>'", z3.And(
                substr(S, q, 1) == "/", q + 2 <= iv(e), iv(e) <= el.n,
                substr(S, iv(e) - 1, 1) == ">",
                ALLWS(sl(S, q + 1, iv(e) - 1))) if ok else False)
        else:
            ex.require("text_position: after the opening tag", z3.And(
                substr(S, q, 1) == ">", iv(v) == q + 1))

    def give(self, ex, el):
        v = self.value(ex, el)
        ex.hset(el, "_text_position", v)
        if v is None:
            ex.hset(el, "_tail_position", el.tlp)
        return v


class Text(Known):
    prop = "text"
    says = "what lies between the opening tag and the next tag"

    def value(self, ex, el):
        if el.comment:
            return el.text
        return None if el.is_single(ex) else el.the_text(ex)

    def give(self, ex, el):
        ex.getattr(el, "text_position")
        return Known.give(self, ex, el)


class Kids(IterV):
    """the elements inside an element, one after the other"""

    def __init__(self, ex, el):
        IterV.__init__(self, ex)
        self.el = el
        ex.hset(self, "pos", el.first)

    def next(self, ex):
        el = self.el
        p = ex.hget(self, "pos")
        k = ex.choose([True] * 3)
        if k == 2:
            xerr(ex)
        if k == 1:
            el.closing(ex)
            ex.assume(iv(p) == el.ce)
            ex.hset(el, "_content_end", el.ce)
            ex.hset(el, "_tail_position", el.tlp)
            return False, None
        kid = Elem(ex, el.S, iv(p), P=iv(p))
        e = ex.fresh("int", "end")
        ex.assume(z3.And(iv(p) < e, e <= el.n))
        ex.hset(self, "pos", e)
        h = ex.spec_state.get("on_kid")
        if h:
            h(ex, kid)
        return True, kid


class Iter(Prop):
    """the elements inside: the first one starts where the text ends, each
    one where the one before it ends (with its tail), and the closing tag
    follows the last one"""
    prop = "__iter__"
    hom_points, int_fast = 10, 2.0

    def setup(self, ex):
        r = Prop.setup(self, ex)
        el = r[2]["el"]
        g = Obj(ex, "ghost")
        ex.spec_state["ghost"] = g
        ex.spec_state["yield_fn"] = M + ".NewDumbXml.__iter__"
        ex.hset(g, "pos", z3.IntVal(-1))

        def on_yield(ex, frame, v):
            ok = isinstance(v, Elem)
            ex.require("yields elements", ok)
            if not ok:
                return
            p = self.at(ex, el, g)
            ex.require("the next element follows at once", z3.And(
                v.S == el.S, iv(v.a) == p, v.P == p))
            e = ex.getattr(v, "end")
            ex.require("elements do not overlap", iv(e) > p)
            ex.hset(g, "pos", iv(e))
        ex.spec_state["on_yield"] = on_yield
        return r

    def at(self, ex, el, g):
        p = ex.hget(g, "pos")
        return z3.If(iv(p) < 0, el.first, iv(p))

    def __init__(self):
        Prop.__init__(self)
        self.templates = [self.follow, ws_run]

    def follow(self, ex, st):
        g = ex.spec_state.get("ghost")
        if g is None:
            return []
        out = []
        loc = ("h", g.oid, "pos")
        if loc not in st.info.writes:
            return out
        el = ex.spec_state.get("el")
        for pn, pg in positions(ex, st):
            if pn == "%s" % (loc,):
                continue
            out.append(("spec:next(%s)" % pn, lambda s, pg=pg: z3.If(
                as_int(s, loc) < 0, pg(s) == el.first,
                pg(s) == as_int(s, loc))))
            out.append(("spec:lt(%s)" % pn, lambda s, pg=pg, S=el.S:
                        z3.Implies(pg(s) < z3.Length(S), z3.And(
                            substr(S, pg(s), 1) == "<",
                            pos(S, pg(s)) == pg(s)))))
        return out

    def run(self, ex):
        from pyvc.interp import PyRaise
        args, _, env = self.setup(ex)
        el = env["el"]
        ex.spec_state["el"] = el
        ex.spec_state["xml_light"] = True
        if not el.comment and not el.is_single(ex):
            el.the_text(ex)
        try:
            ex.call_func(ex.find_func(self.module, self.func), args, {})
        except PyRaise as r:
            self.exc(ex, env, r)
            ex.cover()
            return
        if not el.comment and not el.single:
            ce, e = ex.hget(el, "_content_end"), ex.hget(el, "_tail_position")
            ok = ex.is_int(ce) and ex.is_int(e)
            for what, f in closed(el, iv(ce), iv(e)) if ok else [
                    ("is known", False)]:
                ex.require("the content ends with the closing tag: " + what,
                           f)
            if ok:
                ex.require("the closing tag follows the last element",
                           iv(ce) == self.at(ex, el, ex.spec_state["ghost"]))
        ex.cover()

    def call(self, ex, args, kwargs):
        el = args[0]
        if el.comment:
            return ListV(ex, ())
        t = ex.getattr(el, "text")
        if t is None:
            return ListV(ex, ())
        return Kids(ex, el)


class ContentEnd(Known):
    prop = "content_end"
    says = "where the closing tag starts"

    def value(self, ex, el):
        if el.comment:
            return el.ce
        if el.is_single(ex):
            return None
        el.closing(ex)
        return el.ce

    def give(self, ex, el):
        v = self.value(ex, el)
        if v is not None:
            ex.getattr(el, "text")
            ex.hset(el, "_content_end", v)
            ex.hset(el, "_tail_position", el.tlp)
        return v


class Content(Known):
    prop = "content"
    says = "everything between the opening and the closing tag"

    def value(self, ex, el):
        if el.comment:
            return el.text
        if el.is_single(ex):
            return None
        el.closing(ex)
        return sl(el.S, el.tp, el.ce)

    def call(self, ex, args, kwargs):
        el = args[0]
        e = ex.getattr(el, "content_end")
        return self.value(ex, el)


class TailPosition(Known):
    prop = "tail_position"
    says = "where the element ends"

    def value(self, ex, el):
        if not el.comment and not el.is_single(ex):
            el.closing(ex)
        return el.tlp

    def ret(self, ex, env, v):
        Known.ret(self, ex, env, v)

    give = ContentEnd.give

    def give(self, ex, el):
        if not el.comment:
            ex.getattr(el, "text_position")
            if not el.single:
                ex.getattr(el, "content_end")
        return el.tlp


class Tail(Known):
    prop = "tail"
    recursive = True
    says = "what lies between the element and the next tag"

    def value(self, ex, el):
        if not el.comment and not el.is_single(ex):
            el.closing(ex)
        return el.the_tail(ex)

    def give(self, ex, el):
        ex.getattr(el, "tail_position")
        return Known.give(self, ex, el)


class End(Known):
    prop = "end"
    says = "where the next tag starts"

    def value(self, ex, el):
        if not el.comment and not el.is_single(ex):
            el.closing(ex)
        el.the_tail(ex)
        return el.end

    def ret(self, ex, env, v):
        Known.ret(self, ex, env, v)
        el = env["el"]
        S, n = el.S, el.n
        ex.require("end: after the element, at a tag or at the end of the "
                   "source", z3.And(el.P < iv(v), iv(v) <= n, z3.Implies(
                       iv(v) < n, z3.And(substr(S, v, 1) == "<",
                                         pos(S, v) == iv(v)))))

    def call(self, ex, args, kwargs):
        el = args[0]
        if ex.spec_state.get("xml_light"):
            # all that the loop over the elements has to know
            if not hasattr(el, "end"):
                if not el.comment and ex.choose([True] * 2):
                    xerr(ex)
                e = el.end = ex.fresh("int", "end")
                ex.assume(z3.And(el.P < e, e <= el.n, z3.Implies(
                    e < el.n, z3.And(substr(el.S, e, 1) == "<",
                                     pos(el.S, e) == e))))
            return el.end
        ex.getattr(el, "tail")
        return el.end


CONTRACTS = [FindNextLt(), Position(), Init(), Attributes(), AttribDict(),
             Tag(), TextPosition(), Text(), Iter(), ContentEnd(), Content(),
             TailPosition(), Tail(), End()]

LEMMAS = [Distances(), NoComment()]
HOMS = []
