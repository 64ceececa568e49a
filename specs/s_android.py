"""Contracts: openformats/formats/android.py (and its use of XML elements)

Elements are seen through the contracts of s_xml: their positions delimit
their parts, which are slices of the source, and children follow one another
inside the content of their parent."""
import z3

from pyvc import core
from pyvc.core import (Val, Lst, NIL, snoc, sv, iv, sl, suffix, prefix, cat,
                       substr, Str, Int, Bool)
from pyvc.contracts import Contract, Lemma, bound_args, as_int, positions
from pyvc.interp import (Obj, ListV, DictV, SymLst, SymAny, Unsupported,
                         UNBOUND)
from pyvc.models import LEADWS, TRAILWS, IterV, CountIter
from . import s_client
from .s_client import (TEXT, HASH, KEY, PLURAL, CTX, PAIRS, Tr, trc, dest_of,
                       ref_attr, subs_follow)
from .s_xml import xerr

M = "openformats.formats.android"
X = "openformats.utils.xml"
U = "openformats.utils.xmlutils"
NAMEESC = core.flatmap("escape_name", {"\\": "\\\\", "[": "\\["})


def blank(x):
    return z3.Or(x == "", LEADWS(x) == z3.Length(x))


def stripped(x):
    return sl(x, LEADWS(x), TRAILWS(x))


def handler(ex, cls="AndroidHandler"):
    return Obj(ex, ex.global_(ex.world.module(M), cls))


class Method(object):
    def __init__(self, f):
        self.call = f


class Attr(Obj):
    """the attributes of an element: some names, some values"""

    def __init__(self, ex):
        Obj.__init__(self, ex, "attrib")
        self.known = {}

    def look(self, ex, k):
        k = ex.resolve_any(k)
        if not isinstance(k, str):
            raise Unsupported("attribute of an unknown name")
        if k not in self.known:
            self.known[k] = ex.fresh("str", "attr_" + k.replace(":", "_")) \
                if ex.branch(ex.fresh("bool", "has_" + k)) else None
        return self.known[k]

    def get_attr(self, ex, name):
        if name == "get":
            return Method(lambda ex, a, kw: self.get(ex, *a))
        return NotImplemented

    def get(self, ex, k, default=None):
        v = self.look(ex, k)
        return default if v is None else v

    def contains(self, ex, k):
        return self.look(ex, k) is not None

    def getitem(self, ex, k):
        v = self.look(ex, k)
        if v is None:
            ex.raise_("KeyError")
        return v


class El(Obj):
    """an element of a document, as the contracts of s_xml describe it"""

    def __init__(self, ex, S, p, end=None, hi=None, tag=None):
        Obj.__init__(self, ex, ex.global_(ex.world.module(X), "NewDumbXml"))
        self.S, self.p = S, p
        self.ended = ex.fresh("int", "end") if end is None else end
        hi = z3.Length(S) if hi is None else hi
        ex.assume(z3.And(0 <= p, p < self.ended, self.ended <= hi,
                         hi <= z3.Length(S), substr(S, p, 1) == "<"))
        self.tag = ex.fresh("str", "tag") if tag is None else tag
        self.facts = None
        self.attr = None

    def deep(self, ex):
        if self.facts is None:
            S, p = self.S, self.p
            if ex.choose([True] * 2):
                xerr(ex)
            d = self.facts = {}
            tlp = ex.fresh("int", "after")
            d["tail_position"], d["end"] = tlp, self.ended
            ex.assume(z3.And(p < tlp, tlp <= self.ended))
            d["tail"] = sl(S, tlp, self.ended)
            if ex.branch(ex.eq(self.tag, "!--")):
                tp, ce = p + 4, tlp - 3
                ex.assume(tp <= ce)
                d["text"] = d["content"] = sl(S, tp, ce)
            elif ex.branch(ex.fresh("bool", "single")):
                tp = ce = d["text"] = d["content"] = None
            else:
                tp, ce, e = [ex.fresh("int", x) for x in (
                    "text_at", "content_end", "text_end")]
                ex.assume(z3.And(p + 2 <= tp, tp <= e, e <= ce,
                                 ce + 3 <= tlp, substr(S, ce, 2) == "</",
                                 substr(S, tp - 1, 1) == ">"))
                d["text"], d["content"] = sl(S, tp, e), sl(S, tp, ce)
                self.first = e
            d["text_position"], d["content_end"] = tp, ce
        return self.facts

    def get_attr(self, ex, name):
        if name in ("position", "start"):
            return self.p
        if name == "tag":
            return self.tag
        if name == "source":
            return self.S
        if name == "attrib":
            if self.attr is None:
                if ex.choose([True] * 2):
                    xerr(ex)
                self.attr = Attr(ex)
            return self.attr
        if name in ("text_position", "text", "content", "content_end",
                    "tail_position", "tail", "end"):
            return self.deep(ex)[name]
        return NotImplemented


class KidIter(IterV):
    """some children of an element, front to back"""

    def __init__(self, ex, el, tags):
        IterV.__init__(self, ex)
        d = el.deep(ex)
        self.el, self.tags = el, tags
        self.none = d["text"] is None or ex.entails(ex.eq(el.tag, "!--"))
        ex.hset(self, "pos", el.p if self.none else el.first)

    def next(self, ex):
        if self.none or ex.choose([True] * 2):
            if not self.none and ex.choose([True] * 2):
                xerr(ex)
            return False, None
        el, pos = self.el, ex.hget(self, "pos")
        p = ex.fresh("int", "kid")
        ex.assume(z3.And(pos <= p, p < el.facts["content_end"]))
        kid = El(ex, el.S, p, hi=el.facts["content_end"])
        if self.tags:
            ex.assume(ex.disj([ex.eq(kid.tag, t) for t in self.tags]))
        ex.hset(self, "pos", kid.ended)
        h = ex.spec_state.get("on_kid")
        if h:
            h(ex, kid)
        return True, kid


class Children(Contract):
    module, func = X, "NewDumbXml.find_children"
    why = "contract of s_xml: find_children"

    def call(self, ex, args, kwargs):
        if not isinstance(args[0], El):
            raise Unsupported("find_children of something else")
        return KidIter(ex, args[0], [ex.resolve_any(a) for a in args[1:]])


class NewXml(Contract):
    module, class_ctor, func = X, "NewDumbXml", "NewDumbXml"
    why = "contract of s_xml: __init__"

    def call(self, ex, args, kwargs):
        S = sv(ex.resolve_any(args[0]))
        a = ex.resolve_any(args[1] if len(args) > 1 else
                           kwargs.get("start", 0))
        ex.require("NewDumbXml: inside the source", z3.And(
            0 <= iv(a), iv(a) <= z3.Length(S)))
        if ex.choose([True] * 2):
            xerr(ex)
        p = ex.fresh("int", "root")
        ex.assume(iv(a) <= p)
        return El(ex, S, p)


# ------------------------------------------------------------ preliminaries
def mid(ex, p):
    """a transcriber that has not passed p"""
    t = trc(ex)
    src = z3.String("source")
    ex.hset(t, "source", src)
    ex.hset(t, "ptr", z3.Int("ptr"))
    ex.hset(t, "subs", SymLst(z3.Const("subs", Lst)))
    ex.hset(t, "pend", None)
    ex.hset(t, "secptr", None)
    ex.hset(t, "secsubs", SymLst(z3.Const("section_subs", Lst)))
    ex.hset(t, "secend", None)
    ex.hset(t, "newline_type", z3.String("newline_type"))
    ex.assume(z3.And(0 <= z3.Int("ptr"), z3.Int("ptr") <= p))
    ex.spec_state["last_transcriber"] = t
    return t


SUBS0 = z3.Const("subs", Lst)


class _After(core.LHom):
    """the substitutions `subs` followed by those of the strings"""

    def instances(self, t, points):
        F = self.f
        if t.decl().name() == "snoc":
            l, v = t.children()
            return [F(t) == snoc(F(l), Val.VSub(TEXT(v), HASH(v)))]
        return [z3.Implies(t == NIL, F(t) == SUBS0)]


AFTER = _After("subs_after", Lst, NIL, None, None)


def after_follow(ex, st):
    out = []
    subs = [l for l in st.info.order if l[0] == "h" and l[2] == "subs"]
    el = ex.spec_state.get("parent")
    for b in st.info.order:
        if b[0] == "h" and b[2] == "pos" and el is not None and el.facts:
            out.append(("spec:%s inside" % (b,), lambda s, b=b:
                        as_int(s, b) <= el.facts["content_end"]))
        if b[0] == "h" and b[2] == "items":
            for a in subs:
                out.append(("spec:%s=after(%s)" % (a, b), lambda s, a=a, b=b:
                            None if not isinstance(s.get(a), SymLst) else
                            s.get(a).term == AFTER(s_client.lst_of(s, b))))
    return out


class Base(Contract):
    module = M
    allowed_exc = ("ParseError", "DumbXmlSyntaxError")
    cls = "AndroidHandler"

    def setup(self, ex):
        ex.spec_state["ref_attr"] = ref_attr
        ex.spec_state["xml_light"] = True
        o = handler(ex, self.cls)
        p = z3.Int("at")
        S = z3.String("source")
        t = mid(ex, p)
        el = ex.spec_state["parent"] = El(ex, S, p)
        ex.hset(o, "transcriber", t)
        ex.hset(o, "current_comment", z3.String("comment"))
        ex.hset(o, "order_counter", CountIter(ex, z3.Int("order")))
        return [o, el], {}, dict(o=o, t=t, el=el, p=p, S=S)

    def kept(self, ex, env):
        t = Tr(ex, env["t"])
        return z3.And(t.subs == SUBS0, t.pend is None,
                      iv(t.ptr) <= env["el"].ended)


# ------------------------------------------------------------- attributes
class ChildAttributes(Base):
    """the key: the name, backslashes and "[" escaped, so that no plain name
    looks like that of an array's item; the context: the product"""
    func = "AndroidHandler._get_child_attributes"
    hom_points = 6

    def ret(self, ex, env, v):
        a = env["el"].attr
        ok = isinstance(v, tuple) and len(v) == 2 and a is not None and \
            a.known.get("name") is not None
        ex.require("gives name and product of an element that has a name", ok)
        if not ok:
            return
        ex.require("the name with backslashes and brackets escaped",
                   sv(v[0]) == NAMEESC(a.known["name"])
                   if ex.is_str(v[0]) else False)
        p = a.known.get("product")
        ex.require("the product, empty without one",
                   ex.eq(v[1], "" if p is None else p))

    def call(self, ex, args, kwargs):
        el = args[1] if len(args) > 1 else args[0]
        name = ex.getattr(el, "attrib").look(ex, "name")
        if name is None:
            ex.raise_("ParseError")
        p = el.attr.look(ex, "product")
        return NAMEESC(name), "" if p is None else p


class NameLemma(Lemma):
    """no key of a plain string is that of an array's item, and different
    names have different keys (by induction, as escape_name is a homomorphism
    whose images start alike only when the characters are alike)"""
    name = "lemma.item-names"

    def vcs(self):
        a, o = z3.Strings("a o")
        c = z3.String("c")
        one = z3.Length(c) == 1
        # reading an escaped name from its front gives the characters back
        for ch in "\\[":
            w = NAMEESC.py(ch)
            yield "front of %r" % ch, [], z3.And(z3.PrefixOf(
                z3.StringVal("\\" + ch), z3.Concat(z3.StringVal(w), o)))
        yield "front of another", [one, c != "\\", c != "["], z3.And(
            substr(z3.Concat(c, o), 0, 1) != "\\",
            substr(z3.Concat(c, o), 0, 1) != "[")


# ---------------------------------------------------------------- strings
class Tags(Obj):
    """the tags that used a name and context"""

    def __init__(self, ex, arr):
        Obj.__init__(self, ex, "tags")
        self.arr = arr

    def contains(self, ex, x):
        return z3.Select(self.arr, sv(x))

    def get_attr(self, ex, name):
        if name == "append":
            return Method(self.append)
        return NotImplemented


class Used(Obj):
    """name and context -> the tags that use them"""
    S1 = z3.ArraySort(Str, Bool)
    S2 = z3.ArraySort(Str, S1)
    S3 = z3.ArraySort(Str, S2)

    def __init__(self, ex):
        Obj.__init__(self, ex, "existing_hashes")
        self.any = z3.Const("used", z3.ArraySort(Str, z3.ArraySort(
            Str, Bool)))
        self.tags = z3.Const("used_by", z3.ArraySort(Str, z3.ArraySort(
            Str, z3.ArraySort(Str, Bool))))
        self.added = []

    def key(self, ex, k):
        k = ex.resolve_any(k)
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Unsupported("key of existing_hashes")
        a, b = [ex.resolve_any(x) for x in k]
        if not (ex.is_str(a) and ex.is_str(b)):
            raise Unsupported("key of existing_hashes")
        return sv(a), sv(b)

    def present(self, ex, k):
        a, b = self.key(ex, k)
        for x, y in self.added:
            if ex.entails(z3.And(x == a, y == b)):
                return True
        return z3.Select(z3.Select(self.any, a), b)

    contains = present

    def of(self, ex, k):
        a, b = self.key(ex, k)
        arr = z3.Select(z3.Select(self.tags, a), b)
        t = Tags(ex, arr)
        used = self

        def append(ex, args, kw):
            used.note(ex, a, b, args[0])
        t.append = append
        return t

    def note(self, ex, a, b, tag):
        ex.spec_state.setdefault("noted", []).append((a, b, sv(tag)))

    def getitem(self, ex, k):
        if not ex.branch(self.present(ex, k)):
            ex.raise_("KeyError")
        return self.of(ex, k)

    def get_attr(self, ex, name):
        if name == "get":
            def get(ex, a, kw):
                if ex.branch(self.present(ex, a[0])):
                    return self.of(ex, a[0])
                return a[1] if len(a) > 1 else None
            return Method(get)
        if name == "setdefault":
            def setdefault(ex, a, kw):
                if not ex.branch(self.present(ex, a[0])):
                    self.added.append(self.key(ex, a[0]))
                return self.of(ex, a[0])
            return Method(setdefault)
        return NotImplemented


class NotEmpty(Contract):
    """plain texts: not blank; plural forms: a bool"""
    module, func = U, "XMLUtils.validate_not_empty_string"
    allowed_exc = ("ParseError",)

    def setup(self, ex):
        S, p = z3.String("source"), z3.Int("at")
        t = mid(ex, p)
        el = El(ex, S, p)
        x = z3.String("text") if ex.branch(z3.Bool("some")) else None
        return [t, x, el, DictV(ex, {"main_tag": "m", "child_tag": "c"})], \
            {}, dict(x=x, t=t)

    def ret(self, ex, env, v):
        x = env["x"]
        want = False if x is None else z3.Not(blank(x))
        ok = ex.is_bool(v)
        ex.require("true exactly for a text with more than white space",
                   ex.eq(v, want) if ok else False)
        t = Tr(ex, env["t"])
        ex.require("nothing is transcribed", z3.And(
            t.subs == SUBS0, iv(t.ptr) == z3.Int("ptr"), t.pend is None))

    def call(self, ex, args, kwargs):
        fn = ex.find_func(self.module, self.func)
        d = bound_args(ex, fn, args, kwargs)
        x = ex.resolve_any(d[fn.node.args.args[1].arg])
        if x is None:
            return False
        if ex.is_str(x):
            return z3.Not(blank(sv(x)))
        if ex.choose([True] * 2):
            ex.raise_("ParseError")
        return ex.fresh("bool", "not_empty")


def grows(ex, st):
    """a text only gets longer at its end"""
    out = []
    for l in st.locs(lambda v: ex.is_str(v)):
        e = st.entry.get(l)
        if e is not None and ex.is_str(e):
            out.append(("spec:grows %s" % (l,), lambda s, l=l, e=sv(e):
                        z3.PrefixOf(e, sv(s.get(l)))
                        if ex.is_str(s.get(l)) else None))
    return out


class CreateString(Base):
    """_create_string: a string for every text that is not blank, with a
    placeholder that no string before it has"""
    func = "AndroidHandler._create_string"
    templates = [grows]

    def setup(self, ex):
        args, kw, env = Base.setup(self, ex)
        used = Used(ex)
        ex.hset(env["o"], "existing_hashes", used)
        k = ex.choose([True] * 3)
        text = [None, z3.String("text"), Obj(ex, "forms")][k]
        name, product = z3.Strings("name product")
        plural = k == 2
        env.update(k=k, text=text, name=name, product=product, used=used)

        def made(ex, v, key, text, kw):
            env["made"] = (v, key, text, kw)
        ex.spec_state["on_string"] = made
        return [env["o"], name, text, z3.String("comment"), product,
                env["el"], plural], {}, env

    def ret(self, ex, env, v):
        t = Tr(ex, env["t"])
        ex.require("nothing is transcribed", z3.And(
            t.subs == SUBS0, iv(t.ptr) == z3.Int("ptr"), t.pend is None))
        k, text = env["k"], env["text"]
        if v is None:
            ex.require("no string only for a blank text", k != 1 or
                       blank(text))
            return
        ex.require("a string was made", "made" in env and isinstance(
            v, SymAny))
        if "made" not in env:
            return
        S, key, txt, kw = env["made"]
        ex.require("returns that string", v.term.eq(S))
        ex.require("its text is the one given, and not blank",
                   txt is text if k == 2 else z3.And(
                       k == 1, z3.Not(blank(text)), sv(txt) == text)
                   if k == 1 and ex.is_str(txt) else False)
        ex.require("its key is the name", ex.eq(key, env["name"]))
        ctx = kw.get("context", "")
        ok = ex.is_str(ctx)
        ex.require("its context starts with the product", z3.PrefixOf(
            env["product"], sv(ctx)) if ok else False)
        ex.require("no string before it has the same name and context",
                   z3.Not(z3.Select(z3.Select(env["used"].any, env["name"]),
                                    sv(ctx))) if ok else False)
        ex.require("name and context are remembered as used", any(
            ex.entails(z3.And(a == env["name"], b == sv(ctx)))
            for a, b in env["used"].added) if ok else False)
        ex.require("its developer comment is the one given", ex.eq(
            kw.get("developer_comment", ""), z3.String("comment")))
        ex.require("its number is the next one", ex.eq(
            kw.get("order"), z3.Int("order")))
        ex.require("plural forms make a plural", ex.eq(
            kw.get("pluralized", False), k == 2))

    def call(self, ex, args, kwargs):
        fn = ex.find_func(self.module, self.func)
        d = bound_args(ex, fn, args, kwargs)
        names = [a.arg for a in fn.node.args.args]
        o, name, text, comment, product, el = [
            ex.resolve_any(d[n]) for n in names[:6]]
        h = ex.spec_state.get("on_create")
        if h:
            h(ex, name, text, comment, product)
        if text is None:
            return None
        v = Val.VRef(ex.fresh("int", "openstring"))
        if ex.is_str(text):
            if ex.branch(blank(sv(text))):
                return None
            ex.assume(z3.And(TEXT(v) == sv(text), z3.Not(PLURAL(v))))
        elif ex.choose([True] * 2):
            return None
        else:
            ex.assume(PLURAL(v))
        if ex.choose([True] * 2):
            ex.raise_("ParseError")
        ex.assume(z3.And(KEY(v) == sv(name), z3.Length(HASH(v)) == 35))
        return SymAny(v)


class HandleString(Base):
    """<string>: its content is the text, replaced by the placeholder"""
    func = "AndroidHandler._handle_string"

    def setup(self, ex):
        args, kw, env = Base.setup(self, ex)

        def made(ex, name, text, comment, product):
            ex.require("the string's text is the element's content",
                       ex.eq(text, ex.getattr(env["el"], "content")))
            ex.require("its comment is the current one", ex.eq(
                comment, z3.String("comment")))
            a = env["el"].attr
            ex.require("its key is the name", a is not None and ex.eq(
                name, NAMEESC(a.known["name"])))
            p = None if a is None else a.known.get("product")
            ex.require("its context is the product", ex.eq(
                product, "" if p is None else p))
            env["made"] = True
        ex.spec_state["on_create"] = made
        ex.spec_state["on_skip"] = \
            lambda ex, t, hidden: env.update(skipped=t.ptr)
        return args, kw, env

    def ret(self, ex, env, v):
        el = env["el"]
        t = Tr(ex, env["t"])
        c = ex.getattr(el, "content")
        if v is None:
            ex.require("nothing only for a blank content", z3.And(
                True if c is None else blank(c)))
            ex.require("then nothing is replaced", self.kept(ex, env))
            return
        xs = ex.content(v) if isinstance(v, ListV) else None
        ok = isinstance(xs, tuple) and len(xs) == 1 and isinstance(
            xs[0], SymAny)
        ex.require("returns the string", ok)
        if not ok:
            return
        S = xs[0].term
        ex.require("the content is replaced by the placeholder, nothing else",
                   z3.And(t.pend is None, t.subs == snoc(SUBS0, Val.VSub(
                       c, HASH(S))), TEXT(S) == c))
        ex.require("it is replaced where it stands", "skipped" in env and
                   iv(env["skipped"]) == ex.getattr(el, "text_position"))
        ex.require("nothing behind the content is transcribed",
                   iv(t.ptr) <= el.ended)

    def call(self, ex, args, kwargs):
        return Batch.after(ex, args[0], args[1], self.func)


class HandleArray(Base):
    """<string-array>: the content of each item is replaced by the
    placeholder of its string, in order"""
    func = "AndroidHandler._handle_string_array"
    templates = [after_follow]

    def setup(self, ex):
        args, kw, env = Base.setup(self, ex)

        def made(ex, name, text, comment, product):
            kid = ex.spec_state.get("kid")
            ex.require("an item's text is its content", kid is not None and
                       ex.eq(text, ex.getattr(kid, "content")))
            ex.require("its comment is the current one", ex.eq(
                comment, z3.String("comment")))
        ex.spec_state["on_create"] = made

        def on_kid(ex, kid):
            ex.spec_state["kid"] = kid
        ex.spec_state["on_kid"] = on_kid

        def on_skip(ex, t, hidden):
            kid = ex.spec_state.get("kid")
            ex.require("an item is replaced where it stands", kid is not None
                       and iv(t.ptr) == ex.getattr(kid, "text_position"))
        ex.spec_state["on_skip"] = on_skip
        return args, kw, env

    def ret(self, ex, env, v):
        t = Tr(ex, env["t"])
        if v is None:
            ex.require("no strings: nothing is replaced",
                       self.kept(ex, env))
            return
        ok = isinstance(v, ListV)
        ex.require("returns the strings", ok)
        if ok:
            ex.require("each item's content is replaced by its string's "
                       "placeholder, in order, and nothing else", z3.And(
                           t.pend is None,
                           t.subs == AFTER(ex.lst_term(v))))
            ex.require("nothing behind the array is transcribed",
                       iv(t.ptr) <= env["el"].ended)

    def call(self, ex, args, kwargs):
        return Batch.after(ex, args[0], args[1], self.func)


class HandlePlural(Base):
    """<plurals>: bounded (c12)"""
    func = "AndroidHandler._handle_string_plural"
    assumed = True

    def call(self, ex, args, kwargs):
        ex.trusted.add("AndroidHandler._handle_string_plural: the items are "
                       "replaced by the placeholder; evaluated by "
                       "drivers/c12.py")
        return Batch.after(ex, args[0], args[1], self.func)


class Batch(Obj):
    """the strings of one element: the substitutions they made are theirs"""

    @staticmethod
    def after(ex, o, el, who):
        t = Tr(ex, ex.getattr(o, "transcriber"))
        ex.require("%s: nothing behind the element's start was transcribed"
                   % who.split(".")[-1],
                   z3.And(0 <= iv(t.ptr), iv(t.ptr) <= iv(el.p),
                          t.pend is None))
        el.deep(ex)
        if ex.choose([True] * 2):
            ex.raise_("ParseError")
        p = ex.fresh("int", "ptr")
        if ex.choose([True] * 2):
            ex.assume(z3.And(iv(t.ptr) <= p, p <= el.ended))
            t.put(ptr=p)
            return None
        b = Batch(ex, "strings")
        b.before = t.subs
        b.subs = ex.fresh("lst", "subs")
        ex.assume(z3.And(iv(t.ptr) <= p, p <= el.ended))
        t.put(ptr=p, subs=b.subs)
        return b

    def truth(self, ex):
        return True

    def extend_into(self, ex, lv):
        old = ex.lst_term(lv)
        ex.require("the strings join those of what was replaced before",
                   PAIRS(old) == self.before)
        new = ex.fresh("lst", "stringset")
        ex.assume(PAIRS(new) == self.subs)
        ex.hset(lv, "items", SymLst(new))


class HandleChild(Base):
    """each kind of element is handled as what it is; a skipped element
    leaves no comment behind"""
    func = "AndroidHandler._handle_child"

    def ret(self, ex, env, v):
        t = Tr(ex, env["t"])
        el = env["el"]
        if isinstance(v, Batch):
            ex.require("the substitutions are those of the strings",
                       z3.And(t.subs == v.subs, v.before == SUBS0,
                              iv(t.ptr) <= el.ended, t.pend is None))
            ex.require("an element that is not for translation is skipped",
                       not (el.attr is not None and ex.entails(ex.eq(
                           el.attr.known.get("translatable"), "false"))))
        else:
            ex.require("otherwise nothing is returned or replaced",
                       z3.And(v is None, self.kept(ex, env)))
        ex.require("white space only behind the element", blank(
            ex.getattr(el, "tail")))

    def call(self, ex, args, kwargs):
        o = args[0]
        g = ex.spec_state.get("comment")
        if g is not None:
            ex.require("a comment is for the next string only", ex.eq(
                ex.getattr(o, "current_comment"), ex.hget(g, "now")))
        r = Batch.after(ex, o, args[1], self.func)
        if g is not None:
            if r is None:
                c = ex.fresh("str", "comment")
                ex.hset(o, "current_comment", c)
                ex.hset(g, "now", c)
            else:
                ex.hset(g, "now", "")
        return r


def comment_follow(ex, st):
    g = ex.spec_state.get("comment")
    a = ("h", g.oid, "now")
    return [("spec:comment", lambda s, b=b: sv(s.get(a)) == sv(s.get(b))
             if ex.is_str(s.get(b)) and ex.is_str(s.get(a)) else None)
            for b in st.info.order if b[0] == "h" and
            b[2] == "current_comment"] if a in st.info.order else []


class Parse(Contract):
    """parse: the template is the source with exactly the texts of the
    strings replaced, in order; only a ParseError refuses it"""
    module, func = M, "AndroidHandler.parse"
    allowed_exc = ("ParseError",)
    templates = [subs_follow, comment_follow]

    def setup(self, ex):
        ex.spec_state["ref_attr"] = ref_attr
        g = ex.spec_state["comment"] = Obj(ex, "ghost")
        ex.hset(g, "now", "")
        return [handler(ex), z3.String("content")], {}, {}

    def ret(self, ex, env, v):
        ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], ListV)
        snap = dest_of(ex, v[0]) if ok else None
        ex.require("parse: returns the transcribed template and a list",
                   snap is not None)
        if snap is None:
            return
        ex.require("parse: the whole source is transcribed",
                   iv(snap["ptr"]) == z3.Length(sv(snap["source"])))
        ex.require("parse: the template is the source with exactly each "
                   "string's text replaced by its placeholder, in order",
                   snap["subs"] == PAIRS(ex.lst_term(v[1])))


# ---------------------------------------------------------------- compile
class GetNext(Contract):
    """the next string, or None when there is none left"""
    module, func = M, "AndroidHandler._get_next_string"

    def setup(self, ex):
        from pyvc.models import LstIter
        ex.spec_state["ref_attr"] = ref_attr
        o = handler(ex)
        L = z3.Const("stringset", Lst)
        it = LstIter(ex, L)
        ex.hset(it, "pre", z3.Const("given", Lst))
        ex.hset(o, "stringset", it)
        return [o], {}, dict(it=it, L=L)

    def ret(self, ex, env, v):
        pre = ex.hget(env["it"], "pre")
        g = z3.Const("given", Lst)
        if v is None:
            ex.require("None only when all were given", z3.And(
                g == env["L"], pre == g))
        else:
            ex.require("the next one", z3.And(
                g != env["L"], pre == snoc(g, ex.to_val(v))))

    def call(self, ex, args, kwargs):
        ex.spec_state["advanced"] = ex.spec_state.get("advanced", 0) + 1
        if ex.choose([True] * 2):
            return None
        return SymAny(Val.VRef(ex.fresh("int", "openstring")))


class CompileBase(Base):
    plain = True

    def setup(self, ex):
        args, kw, env = Base.setup(self, ex)
        ex.spec_state["plain_strings"] = self.plain
        o = env["o"]
        nxt = None
        if ex.choose([True] * 2):
            nxt = SymAny(Val.VRef(z3.Int("next_string")))
            ex.assume(z3.Length(HASH(nxt.term)) == 35)
        ex.hset(o, "next_string", nxt)
        ex.hset(o, "is_source", z3.Bool("is_source"))
        env["next"] = nxt
        return args, kw, env

    def match(self, ex, env):
        c = ex.getattr(env["el"], "content")
        n = env["next"]
        if c is None or n is None:
            return z3.BoolVal(False)
        return stripped(c) == HASH(n.term)


class ShouldCompile(CompileBase):
    func = "AndroidHandler._should_compile"

    def ret(self, ex, env, v):
        ex.require("exactly when the content, without white space around, is "
                   "the placeholder of the next string",
                   self.match(ex, env) == v if ex.is_bool(v) else False)

    def call(self, ex, args, kwargs):
        o, el = args[0], args[1]
        env = dict(el=el, next=ex.resolve_any(ex.getattr(o, "next_string"))
                   if not isinstance(ex.getattr(o, "next_string"), SymAny)
                   else ex.getattr(o, "next_string"))
        return self.match(ex, env)


class CompileString(CompileBase):
    """<string>, <item>: the placeholder of the next string gives way to its
    text; what has no text is left alone; anything else is removed"""
    func = "AndroidHandler._compile_string"

    def ret(self, ex, env, v):
        t = Tr(ex, env["t"])
        el, n = env["el"], env["next"]
        c = ex.getattr(el, "content")
        m = self.match(ex, env)
        if ex.branch(m):
            ex.require("the content gives way to the string's text, nothing "
                       "else", z3.And(t.pend is None, t.subs == snoc(
                           SUBS0, Val.VSub(c, TEXT(n.term)))))
            ex.require("copied up to the element's end", iv(t.ptr) ==
                       el.ended)
            ex.require("then it is the next string's turn",
                       ex.spec_state.get("advanced") == 1)
            return
        ex.require("the string waits for its placeholder", z3.And(
            "advanced" not in ex.spec_state,
            ex.getattr(env["o"], "next_string") is n))
        if c is None or ex.branch(blank(c)):
            ex.require("an element without text is left alone", z3.And(
                t.subs == SUBS0, t.pend is None,
                iv(t.ptr) == z3.Int("ptr")))
        else:
            ex.require("the element of a string that is gone is removed",
                       z3.And(t.subs == snoc(SUBS0, Val.VSub(sl(
                           env["S"], z3.Int("ptr"), el.ended),
                           z3.StringVal(""))), iv(t.ptr) == el.ended))


CONTRACTS = [GetNext(), ShouldCompile(), CompileString(), ChildAttributes(), NotEmpty(), CreateString(), HandleString(),
             HandleArray(), HandlePlural(), HandleChild(), Parse()]
EXTRA = [Children(), NewXml()] + s_client.RULES
LEMMAS = []
HOMS = [NAMEESC, AFTER] + s_client.NODES
