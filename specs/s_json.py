"""Contracts: openformats/formats/json.py"""
import z3

from pyvc import core
from pyvc.core import (Val, Lst, NIL, snoc, sv, iv, sl, suffix, prefix, cat,
                       substr, Str, Int, Bool)
from pyvc.contracts import (Contract, Lemma, bound_args, as_int, lst_of)
from pyvc.interp import (Obj, ListV, SetV, SymLst, SymSet, SymAny, TypeV,
                         Unsupported, UNBOUND)
from pyvc.models import LEADWS, ws_char, itos, repl_fn
from . import s_client, s_dumbjson as DJ
from .s_client import (TEXT, HASH, KEY, PLURAL, PAIRS, CPAIRS, Tr, trc,
                       dest_of, ref_attr, subs_follow)

J = "openformats.formats.json"
from .s_icu import IcuParse, ICU

KESC = core.flatmap("escape_key", {"\\": "\\\\", ".": "\\."})
OPAQUE = ("no_unescaped_quote", "after_backslash", "all_ws", "lead_ws",
          "trail_ws")
SERIAL = z3.Function("icu_serialized", Val, Str)
NTH = z3.Function("nth_of_stringset", Int, Val)


def blank(x):
    return LEADWS(x) == z3.Length(x)


def handler(ex, cls="JsonHandler"):
    return Obj(ex, ex.global_(ex.world.module(J), cls))


def mid_transcriber(ex, start):
    """a transcriber in the middle of its work, not beyond start"""
    t = trc(ex)
    src = z3.String("source")
    ex.hset(t, "source", src)
    ex.hset(t, "ptr", z3.Int("ptr"))
    ex.hset(t, "subs", SymLst(z3.Const("subs", Lst)))
    ex.hset(t, "pend", None)
    ex.hset(t, "secptr", z3.Int("section_start"))
    ex.hset(t, "secsubs", SymLst(z3.Const("section_subs", Lst)))
    ex.hset(t, "secend", None)
    ex.hset(t, "newline_type", z3.String("newline_type"))
    ex.assume(z3.And(0 <= z3.Int("ptr"), z3.Int("ptr") <= start,
                     start < z3.Length(src)))
    ex.spec_state["last_transcriber"] = t
    return t


# ------------------------------------------------------------------- parse
class EscapeKey(Contract):
    """a key is escaped by doubling backslashes and escaping dots"""
    module, func = J, "JsonHandler._escape_key"
    hom_points = 6

    def setup(self, ex):
        k = z3.String("key")
        return [k], {}, {"k": k}

    def ret(self, ex, env, v):
        ex.require("gives a text", ex.is_str(v))
        if ex.is_str(v):
            ex.require("every backslash and every dot is escaped, nothing "
                       "else changes", sv(v) == KESC(env["k"]))

    def call(self, ex, args, kwargs):
        a = [ex.resolve_any(x) for x in args if not (
            isinstance(x, Obj) and not ex.is_str(x))]
        return KESC(sv(a[-1]))


PLAINESC = core.flatmap("escape_dots", {".": "\\."})
UNDOUBLE = repl_fn("\\\\", "\\")
UNDOT = repl_fn("\\.", ".")


class UnescapeKey(Contract):
    """unescaping an escaped key gives the key back"""
    module, func = J, "JsonHandler._unescape_key"
    soft = True

    def setup(self, ex):
        k = z3.String("key")
        # lemma.unescape-key
        ex.assume(UNDOUBLE(KESC(k)) == PLAINESC(k))
        ex.assume(UNDOT(PLAINESC(k)) == k)
        return [KESC(k)], {}, {"k": k}

    def ret(self, ex, env, v):
        ex.require("gives the key that was escaped", ex.is_str(v) and
                   sv(v) == env["k"])


class UnescapeLemma(Lemma):
    """both by induction on the key"""
    name = "lemma.unescape-key"

    def vcs(self):
        c, o = z3.Strings("c o")
        one = z3.Length(c) == 1
        yield "base", [], z3.And(UNDOUBLE(KESC("")) == PLAINESC(""),
                                 UNDOT(PLAINESC("")) == "")
        ih = UNDOUBLE(KESC(o)) == PLAINESC(o)
        for ch in "\\.":
            t = z3.Concat(z3.StringVal(KESC.py(ch)), KESC(o))
            hy = [ih]
            if ch == ".":
                t2 = z3.Concat(z3.StringVal("."), KESC(o))
                yield "%r first, inside" % ch, hy, UNDOUBLE(t2) == \
                    z3.Concat(z3.StringVal("."), PLAINESC(o))
                hy = [UNDOUBLE(t2) == z3.Concat(z3.StringVal("."),
                                                PLAINESC(o))]
            yield "%r first" % ch, hy, UNDOUBLE(t) == z3.Concat(
                z3.StringVal(PLAINESC.py(ch)), PLAINESC(o))
        t = z3.Concat(c, KESC(o))
        yield "other first", [ih, one, c != "\\", c != "."], \
            UNDOUBLE(t) == z3.Concat(c, PLAINESC(o))
        ih = UNDOT(PLAINESC(o)) == o
        yield "dot last", [ih], UNDOT(z3.Concat(
            PLAINESC(o), z3.StringVal("\\."))) == z3.Concat(
                o, z3.StringVal("."))
        yield "other last", [ih, one, c != "."], UNDOT(z3.Concat(
            PLAINESC(o), c)) == z3.Concat(o, c)


def _dot(n, at, rest):
    return z3.If(n <= 0, z3.IntVal(0), z3.If(
        at(0) == ".", z3.IntVal(0), z3.If(
            z3.And(at(0) == "\\", n >= 2), 2 + rest(2), 1 + rest(1))))


def _py_dot(s):
    i = 0
    while i < len(s) and s[i] != ".":
        i += 2 if s[i] == "\\" and i + 1 < len(s) else 1
    return i


FIRSTDOT = core.SufRec("first_plain_dot", Int, _dot, _py_dot)


class KeyLemma(Lemma):
    """inside one container different items have different keys, whatever
    follows: the first dot that is not escaped ends the item's own part, and
    escaping is injective"""
    name = "lemma.keys-differ"

    def vcs(self):
        c, o, R = z3.Strings("c o R")
        one = z3.Length(c) == 1
        end = z3.Or(R == "", z3.PrefixOf(z3.StringVal("."), R))
        yield "the end ends it", [end], FIRSTDOT(R) == 0
        t = z3.Concat(KESC(o), R)
        ih = FIRSTDOT(t) == z3.Length(KESC(o))
        for ch in "\\.":
            w = KESC.py(ch)
            yield "%r first" % ch, [ih], FIRSTDOT(z3.Concat(
                z3.StringVal(w), KESC(o), R)) == len(w) + z3.Length(KESC(o))
        yield "other first", [ih, one, c != "\\", c != "."], FIRSTDOT(
            z3.Concat(c, KESC(o), R)) == 1 + z3.Length(KESC(o))
        a, b, R2 = z3.Strings("a b R2")
        yield "same key, same own part", [
            FIRSTDOT(z3.Concat(KESC(a), R)) == z3.Length(KESC(a)),
            FIRSTDOT(z3.Concat(KESC(b), R2)) == z3.Length(KESC(b)),
            z3.Concat(KESC(a), R) == z3.Concat(KESC(b), R2)], \
            KESC(a) == KESC(b)
        yield "same own part, same key of the document", [
            UNDOT(UNDOUBLE(KESC(a))) == a, UNDOT(UNDOUBLE(KESC(b))) == b,
            KESC(a) == KESC(b)], a == b
        x, y = z3.Strings("x y")
        digits = z3.Plus(z3.Range("0", "9"))
        D = z3.StringVal(".")
        hy = [z3.InRe(x, digits), z3.InRe(y, digits), z3.Concat(x, D, R) ==
              z3.Concat(y, D, R2)]
        yield "same index", hy, x == y


class CreateString(Contract):
    """_create_openstring: the string's text is replaced by its placeholder"""
    module = J
    hom_points = 8
    allowed_exc = ("ParseError",)

    def __init__(self, cls):
        self.cls = cls
        self.func = cls + "._create_openstring"

    def setup(self, ex):
        o = handler(ex, self.cls)
        vp = z3.Int("value_at")
        t = mid_transcriber(ex, vp)
        src = z3.String("source")
        key, value = z3.Strings("key value")
        ex.assume(DJ.string_at(ex, src, vp, value))
        ex.hset(o, "transcriber", t)
        self.fields(ex, o)
        ex.spec_state["ref_attr"] = ref_attr
        env = dict(t=t, vp=vp, value=value, key=key, src=src)
        ex.spec_state["on_string"] = \
            lambda ex, v, k, text, kw: env.update(made=v)
        ex.spec_state["on_skip"] = \
            lambda ex, t, hidden: env.update(skipped=t.ptr)
        more = [z3.String("context"), z3.String("description")][
            :self.extra(ex)]
        return [o, key, value, vp] + more, {}, env

    def fields(self, ex, o):
        from pyvc.models import CountIter
        ex.hset(o, "_order", CountIter(ex, z3.Int("order")))
        ex.hset(o, "name", ex.getattr(o, "name"))

    def extra(self, ex):
        fn = ex.find_func(self.module, self.func)
        return len(fn.node.args.args) - 4

    def ret(self, ex, env, v):
        t = Tr(ex, env["t"])
        src, vp, value = env["src"], env["vp"], env["value"]
        if v is None:
            ex.require("no string, nothing was replaced",
                       t.subs == z3.Const("subs", Lst))
            ex.require("the position stays inside the value", z3.And(
                iv(t.ptr) <= vp + z3.Length(value)))
            return
        ok = isinstance(v, SymAny)
        ex.require("returns a string", ok)
        if not ok:
            return
        S = v.term
        ex.require("the string has the key it was given",
                   KEY(S) == env["key"])
        sub = t.subs
        want = value
        if ex.spec_state.get("forms"):
            ex.require("only what the parser calls plural becomes a plural",
                       "icu" in ex.spec_state)
            if "icu" not in ex.spec_state:
                return
            want = ex.spec_state["icu"][1]
        else:
            ex.require("a plain string's text is the value",
                       z3.And(TEXT(S) == value, z3.Not(PLURAL(S))))
        ex.require("the text of the string (the plural part of it) is "
                   "replaced by the string's placeholder, nothing else",
                   z3.And(t.pend is None, sub == snoc(
                       z3.Const("subs", Lst), Val.VSub(want, HASH(S)))))
        at = vp + ex.spec_state["icu"][0] if ex.spec_state.get("forms") \
            else vp
        ex.require("it is replaced where it stands", "skipped" in env and
                   iv(env["skipped"]) == at)
        ex.require("the position is behind the text and inside the value",
                   z3.And(vp <= iv(t.ptr),
                          iv(t.ptr) <= vp + z3.Length(value)))

    def call(self, ex, args, kwargs):
        fn = ex.find_func(self.module, self.func)
        d = bound_args(ex, fn, args, kwargs)
        names = [a.arg for a in fn.node.args.args]
        o, key, value, vp = [ex.resolve_any(d[n]) for n in names[:4]]
        ok = ex.is_str(key) and ex.is_str(value) and ex.is_int(vp)
        ex.require("_create_openstring gets a key, a text and its position",
                   ok)
        if not ok:
            raise Unsupported("_create_openstring arguments")
        t = Tr(ex, ex.getattr(o, "transcriber"))
        ex.require("_create_openstring: the text stands at the position, "
                   "not before what was transcribed", z3.And(
                       iv(t.ptr) <= iv(vp), substr(
                           sv(t.source), iv(vp), z3.Length(sv(value))) ==
                       sv(value), t.pend is None))
        w = ex.spec_state.get("walk")
        if w:
            w.handled(ex, "string", key, value, vp)
        if self.cls == "ArbHandler" and ex.choose([True, True]):
            p = ex.fresh("int", "ptr")
            t.put(ptr=t.ptr)
            return None
        if ex.choose([True, True]) == 1:
            ex.raise_("ParseError")
        v = Val.VRef(ex.fresh("int", "openstring"))
        ex.assume(KEY(v) == sv(key))
        p = ex.fresh("int", "ptr")
        ex.assume(z3.And(iv(vp) <= p, p <= iv(vp) + z3.Length(sv(value)),
                         z3.Length(HASH(v)) == 35,
                         z3.Contains(sv(value), TEXT(v)),
                         z3.Implies(z3.Not(PLURAL(v)), TEXT(v) == sv(value))))
        t.put(ptr=p, subs=snoc(t.subs, Val.VSub(TEXT(v), HASH(v))), pend=None)
        return SymAny(v)


class Walk(object):
    """ghost bookkeeping of one container's iteration: each item that has to
    be handled is handled, once, with its own key, text and position"""

    def __init__(self, ex, g, nest, o, src, at):
        self.g, self.nest, self.o, self.src, self.at = g, nest, o, src, at

    def key_of(self, ex):
        key = ex.spec_state["item"][0]
        n = ex.hget(self.g, "n") - 1
        if key:
            k = KESC(sv(key[0]))
            return k if self.nest is None else cat(self.nest, sv("."), k)
        i = itos(ex, n)
        return cat(sv(""), sv(".."), i, sv("..")) if self.nest is None else \
            cat(self.nest, sv(".."), i, sv(".."))

    def step(self, ex):
        ex.require("every string and every container inside this one is "
                   "handled before the next item",
                   ex.hget(self.g, "todo") == 0)

    def item(self, ex, it):
        if it.at is not self.at and not it.at.eq(self.at):
            return
        self.step(ex)
        key, v, vp, end = ex.spec_state["item"]
        ex.hset(self.g, "n", ex.hget(self.g, "n") + 1)
        todo = z3.IntVal(0)
        if ex.is_str(v):
            todo = z3.If(blank(sv(v)), z3.IntVal(0), z3.IntVal(1))
        elif isinstance(v, Obj) and v.cls != "json value":
            todo = z3.IntVal(2)
        ex.hset(self.g, "todo", todo)
        ex.spec_state["known_keys"] = ex.hget(
            ex.getattr(self.o, "existing_keys"), "sitems") \
            if self.keys else None

    keys = True

    def handled(self, ex, kind, key, v, vp):
        item = ex.spec_state.get("item")
        ex.require("a %s is handled only when there is one" % kind,
                   item is not None)
        if item is None:
            raise Unsupported("no item")
        ik, val, at, end = item
        same = val is v or (ex.is_str(val) and ex.is_str(v) and
                            sv(val).eq(sv(v)))
        if kind == "string" and ex.is_str(val):
            ex.require("the string handled is the item, with its own text "
                       "and position", z3.And(sv(v) == sv(val), vp == at))
        else:
            ex.require("the %s handled is the item" % kind, same)
        ex.require("each item is handled at most once, and only what has to "
                   "be handled", ex.hget(self.g, "todo") == (
                       1 if kind == "string" else 2))
        ex.hset(self.g, "todo", z3.IntVal(0))
        ex.require("the key of an item is the way to it", ex.is_str(key) and
                   sv(key) == self.key_of(ex))
        if ik and ex.spec_state["known_keys"] is not None and ex.is_str(key):
            before = ex.spec_state["known_keys"]
            now = ex.hget(ex.getattr(self.o, "existing_keys"), "sitems")
            k = Val.VStr(sv(key))
            ex.require("a key that was there before is refused",
                       z3.Not(z3.Select(before.arr, k))
                       if isinstance(before, SymSet) else
                       isinstance(before, tuple) and not before)
            ex.require("a key that was used is remembered", isinstance(
                now, SymSet) and z3.Select(now.arr, k))


class Extract(Contract):
    """_extract(container, nest): every nonblank string inside becomes a
    string of the stringset, in order, its text replaced in the template"""
    module = J
    recursive = True
    allowed_exc = ("ParseError", "ValueError", "TypeError")
    hom_points = 8
    fast, slow = 1.0, 4.0
    opaque = OPAQUE

    def __init__(self, cls, kind, nested):
        self.cls, self.kind, self.nested = cls, kind, nested
        self.func = "JsonHandler._extract"
        self.name = "%s._extract(%s%s)" % (cls, kind, ", nested" * nested)
        self.templates = [subs_follow]

    def setup(self, ex):
        ex.spec_state["ref_attr"] = ref_attr
        src, at = z3.String("source"), z3.Int("at")
        o = handler(ex, self.cls)
        t = mid_transcriber(ex, at)
        c = DJ.container(ex, src, at, self.kind)
        S = z3.Const("stringset", Lst)
        ex.hset(o, "transcriber", t)
        ss = ListV(ex, SymLst(S))
        ex.hset(o, "stringset", ss)
        keys = SetV(ex, ())
        ex.hset(keys, "sitems", SymSet(z3.Const(
            "existing", z3.ArraySort(Val, Bool))))
        ex.hset(o, "existing_keys", keys)
        ex.assume(Tr(ex, t).subs == PAIRS(S))
        nest = z3.String("nest") if self.nested else None
        g = Obj(ex, "ghost")
        ex.hset(g, "todo", z3.IntVal(0))
        ex.hset(g, "n", z3.IntVal(0))
        w = ex.spec_state["walk"] = Walk(ex, g, nest, o, src, at)
        ex.spec_state["on_item"] = w.item
        env = dict(o=o, t=t, ss=ss, src=src, at=at, w=w)
        self.walk_env = None
        return [o, c] + ([nest] if self.nested else []), {}, env

    def post(self, ex, t, ss, lst, at, src):
        return z3.And(t.subs == PAIRS(lst), iv(t.ptr) <= DJ.END(src, at))

    def ret(self, ex, env, v):
        env["w"].step(ex)
        t = Tr(ex, env["t"])
        lst = ex.lst_term(ex.getattr(env["o"], "stringset"))
        ex.require("what was replaced so far are the texts of the strings, "
                   "each by its placeholder, in order",
                   t.pend is None and t.subs == PAIRS(lst))
        ex.require("nothing behind the container was transcribed",
                   iv(t.ptr) <= DJ.END(env["src"], env["at"]))

    def call(self, ex, args, kwargs):
        fn = ex.find_func(self.module, self.func)
        d = bound_args(ex, fn, args, kwargs)
        names = [a.arg for a in fn.node.args.args]
        o, c = args[0], d[names[1]]
        nest = ex.resolve_any(d[names[2]])
        t = Tr(ex, ex.getattr(o, "transcriber"))
        src, at = sv(t.source), iv(ex.getattr(c, "start"))
        w = ex.spec_state.get("walk")
        if w:
            w.handled(ex, "container", nest, c, None)
        ss = ex.getattr(o, "stringset")
        ex.require("_extract: what was replaced before are the texts of the "
                   "strings before", t.subs == PAIRS(ex.lst_term(ss)))
        ex.require("_extract: not beyond the container's start", z3.And(
            iv(t.ptr) <= at, 0 <= iv(t.ptr), t.pend is None))
        k = ex.choose([True, True])
        if k == 1:
            ex.raise_("ParseError")
        lst = ex.fresh("lst", "stringset")
        p = ex.fresh("int", "ptr")
        ex.hset(ss, "items", SymLst(lst))
        t.put(ptr=p, subs=PAIRS(lst))
        ex.assume(z3.And(iv(p) <= DJ.END(src, at)))
        ex.assume(p >= 0)
        keys = ex.getattr(o, "existing_keys")
        old = ex.hget(keys, "sitems")
        new = z3.Const(ex.fresh_name("existing"), z3.ArraySort(Val, Bool))
        ex.hset(keys, "sitems", SymSet(new))
        if w and isinstance(old, SymSet):
            pass
        return None


def json_text(ex, s):
    """json.loads: ValueError unless the text is JSON"""
    ex.trusted.add("json.loads raises ValueError on what is not JSON")
    if ex.choose([True, True]):
        ex.raise_("ValueError")
    return Obj(ex, "json value")


class Parse(Contract):
    """parse: the template is the source with exactly the texts of the
    strings replaced, each by its placeholder, in order"""
    module = J
    allowed_exc = ("ParseError", "ValueError", "TypeError")
    templates = [subs_follow]

    def __init__(self, cls):
        self.cls = cls
        self.func = cls + ".parse"

    def setup(self, ex):
        ex.spec_state["ref_attr"] = ref_attr
        ex.spec_state["json_loads"] = json_text
        return [handler(ex, self.cls), z3.String("content")], {}, {}

    def ret(self, ex, env, v):
        ok = isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], ListV)
        snap = dest_of(ex, v[0]) if ok else None
        ex.require("parse: returns the transcribed template and a list",
                   snap is not None)
        if snap is None:
            return
        ex.require("parse: the whole source is transcribed",
                   iv(snap["ptr"]) == z3.Length(sv(snap["source"])))
        ex.require("parse: the template is the source with exactly each "
                   "string's text replaced by its placeholder, in order",
                   snap["subs"] == PAIRS(ex.lst_term(v[1])))


# ----------------------------------------------------------------- compile
class IcuSerialize(Contract):
    """ICUCompiler.serialize_strings: a text that the forms determine"""
    module, func = ICU, "ICUCompiler.serialize_strings"
    why = "contract of s_icu"

    def call(self, ex, args, kwargs):
        fn = ex.find_func(ICU, self.func)
        d = bound_args(ex, fn, args, kwargs)
        names = [a.arg for a in fn.node.args.args]
        x, delim = d[names[1]], ex.resolve_any(d[names[2]])
        f = getattr(x, "forms_of", None)
        if f is None:
            raise Unsupported("serialize_strings of unknown forms")
        ex.require("plural forms are written with a space between them",
                   delim == " ")
        return SERIAL(f)


class Forms(Obj):
    pass


class NextString(Contract):
    """the string at the index, or None when there is none"""
    module, func = J, "JsonHandler._get_next_string"

    def setup(self, ex):
        ex.spec_state["ref_attr"] = ref_attr
        o = handler(ex)
        S, i = z3.Const("stringset", Lst), z3.Int("index")
        ex.assume(i >= 0)
        ex.hset(o, "stringset", ListV(ex, SymLst(S)))
        ex.hset(o, "stringset_index", i)
        return [o], {}, dict(S=S, i=i)

    def ret(self, ex, env, v):
        n = core.LLEN(env["S"])
        if v is None:
            ex.require("None only when there is no string left",
                       env["i"] >= n)
        else:
            ex.require("the string at the index", z3.And(
                env["i"] < n, ex.to_val(v) == core.LNTH(env["S"], env["i"])))

    def call(self, ex, args, kwargs):
        i = ex.resolve_any(ex.getattr(args[0], "stringset_index"))
        m = ex.spec_state.get("strings_total")
        if m is None:
            raise Unsupported("_get_next_string")
        if ex.branch(iv(i) < m):
            return SymAny(NTH(iv(i)))
        return None


def comp_attr(ex, o, name):
    v = o.term
    if name == "string" and ex.entails(PLURAL(v)):
        f = Forms(ex, "plural forms")
        f.forms_of = v
        return f
    return ref_attr(ex, o, name)


class Insert(Contract):
    """_insert(container): when every string of the template is given, each
    placeholder is replaced by its own string's text (or serialized plural
    forms), in order, and nothing else changes"""
    module = J
    recursive = True
    allowed_exc = ("ValueError", "TypeError")
    hom_points = 8
    fast, slow = 1.0, 4.0
    opaque = OPAQUE

    def __init__(self, cls, kind, real):
        self.cls, self.kind, self.real = cls, kind, real
        self.func = "JsonHandler._insert"
        self.name = "%s._insert(%s, %s)" % (
            cls, kind, "strings" if real else "placeholders")
        self.templates = [self.follow]

    def setup(self, ex):
        ex.spec_state["ref_attr"] = comp_attr
        ex.spec_state["identity_subs"] = True
        src, at = z3.String("source"), z3.Int("at")
        m, k = z3.Int("strings_total"), z3.Int("index")
        o = handler(ex, self.cls)
        t = mid_transcriber(ex, at)
        c = DJ.container(ex, src, at, self.kind)
        S = z3.Const("stringset", Lst)
        ex.hset(o, "transcriber", t)
        ex.hset(o, "stringset", ListV(ex, SymLst(S)))
        ex.hset(o, "stringset_index", k)
        ex.hset(o, "metadata_blocks", ListV(ex, SymLst(z3.Const(
            "metadata", Lst))))
        ex.assume(0 <= k)
        ex.spec_state["strings_total"] = m
        g = Obj(ex, "ghost")
        ex.hset(g, "k", k)
        ex.hset(g, "want", SymLst(z3.Const("subs", Lst)))
        ex.spec_state["ghost"] = g
        ex.spec_state["on_item"] = self.item
        real = self.real
        ex.spec_state["real"] = real
        env = dict(o=o, t=t, src=src, at=at, g=g, k=k)
        return [o, c, real], {}, env

    def item(self, ex, it):
        g = ex.spec_state["ghost"]
        key, v, vp, end = ex.spec_state["item"]
        if not ex.is_str(v):
            return
        v = sv(v)
        if ex.branch(blank(v)):
            return
        # precondition: the placeholders of the strings, in order
        k = ex.hget(g, "k")
        S = NTH(k)
        ex.assume(z3.And(k >= 0, k < ex.spec_state["strings_total"],
                         Val.is_VRef(S), z3.Length(HASH(S)) == 35))
        want = ex.hget(g, "want").term
        if ex.branch(PLURAL(S)):
            ex.assume(z3.Contains(v, HASH(S)))
            x = SERIAL(S) if ex.spec_state["real"] else HASH(S)
            if not ex.entails(x == HASH(S)):
                want = snoc(want, Val.VSub(HASH(S), x))
        else:
            ex.assume(v == HASH(S))
            if not ex.entails(TEXT(S) == v):
                want = snoc(want, Val.VSub(HASH(S), TEXT(S)))
        ex.hset(g, "want", SymLst(want))
        ex.hset(g, "k", k + 1)

    def follow(self, ex, st):
        g = ex.spec_state["ghost"]
        a = [l for l in st.info.order if l[0] == "h" and l[2] == "subs"]
        w = ("h", g.oid, "want")
        out = [("spec:%s=wanted" % (x,), lambda s, x=x: None
                if not isinstance(s.get(x), SymLst) else
                s.get(x).term == s.get(w).term) for x in a
               if w in st.info.order]
        for l in st.locs(lambda v: ex.is_bool(v)):
            for c in st.info.order:
                if c[0] == "h" and c[2] == "count":
                    out.append((
                        "spec:%s or nothing so far" % (l,),
                        lambda s, l=l, c=c: None if not ex.is_bool(s.get(l))
                        else z3.Or(s.get(l), z3.And(
                            as_int(s, c) == 0, z3.Not(DJ.EMPTY(
                                z3.String("source"), z3.Int("at")))))))
        return out

    def ret(self, ex, env, v):
        t, g = Tr(ex, env["t"]), env["g"]
        ex.require("tells that something is left", ex.is_bool(v) and v)
        ex.require("each placeholder is replaced by its own string, nothing "
                   "else changes", t.pend is None and
                   t.subs == ex.hget(g, "want").term)
        ex.require("the next string is the one behind those used",
                   iv(ex.resolve_any(ex.getattr(
                       env["o"], "stringset_index"))) == ex.hget(g, "k"))
        ex.require("nothing behind the container was transcribed",
                   iv(t.ptr) <= DJ.END(env["src"], env["at"]))

    def call(self, ex, args, kwargs):
        fn = ex.find_func(self.module, self.func)
        d = bound_args(ex, fn, args, kwargs)
        names = [a.arg for a in fn.node.args.args]
        o, c, real = [d[n] for n in names[:3]]
        t = Tr(ex, ex.getattr(o, "transcriber"))
        src, at = sv(t.source), iv(ex.getattr(c, "start"))
        g = ex.spec_state["ghost"]
        ex.require("_insert: what was replaced before is what was wanted",
                   t.pend is None and t.subs == ex.hget(g, "want").term)
        ex.require("_insert: the strings before were used",
                   iv(ex.resolve_any(ex.getattr(o, "stringset_index"))) ==
                   ex.hget(g, "k"))
        ex.require("_insert: real or not is passed on",
                   real is ex.spec_state["real"])
        ex.require("_insert: not beyond the container's start", z3.And(
            iv(t.ptr) <= at, 0 <= iv(t.ptr)))
        want = ex.fresh("lst", "want")
        k, p = ex.fresh("int", "k"), ex.fresh("int", "ptr")
        ex.assume(z3.And(k >= ex.hget(g, "k"), 0 <= p,
                         p <= DJ.END(src, at)))
        ex.hset(g, "want", SymLst(want))
        ex.hset(g, "k", k)
        ex.hset(o, "stringset_index", k)
        t.put(subs=want, ptr=p, secptr=ex.fresh("int", "section_start"),
              secsubs=SymLst(ex.fresh("lst", "section_subs")), secend=None)
        ex.hset(ex.getattr(o, "metadata_blocks"), "items",
                SymLst(ex.fresh("lst", "metadata")))
        return True


class Compile(Contract):
    module = J
    allowed_exc = ("ValueError", "TypeError", "ParseError")

    def __init__(self, cls):
        self.cls = cls
        self.func = "JsonHandler.compile"

    def setup(self, ex):
        ex.spec_state["ref_attr"] = comp_attr
        ex.spec_state["strings_total"] = z3.Int("strings_total")
        ex.spec_state["real"] = True
        g = Obj(ex, "ghost")
        ex.hset(g, "k", z3.IntVal(0))
        ex.hset(g, "want", SymLst(NIL))
        ex.spec_state["ghost"] = g
        ss = ListV(ex, SymLst(z3.Const("stringset", Lst)))
        return [handler(ex, self.cls), z3.String("template"), ss], {}, \
            dict(g=g)

    def ret(self, ex, env, v):
        snap = dest_of(ex, v)
        ex.require("compile: returns the transcribed text", snap is not None)
        if snap is None:
            return
        ex.require("compile: the whole template is transcribed",
                   iv(snap["ptr"]) == z3.Length(sv(snap["source"])))
        ex.require("compile: each placeholder is replaced by its own string, "
                   "nothing else changes",
                   snap["subs"] == ex.hget(env["g"], "want").term)


KEYS = [EscapeKey(), UnescapeKey()]
PARSE = [CreateString("JsonHandler")] + [
    Extract("JsonHandler", k, n) for k in ("dict", "list")
    for n in (0, 1)] + [Parse("JsonHandler")]
COMPILE = [NextString()] + [
    Insert("JsonHandler", k, r) for k in ("dict", "list")
    for r in (True, False)] + [Compile("JsonHandler")]
CONTRACTS = KEYS + PARSE + COMPILE
EXTRA = s_client.RULES + [DJ.New(), IcuParse(), IcuSerialize()] + [
    c for c in DJ.CONTRACTS if isinstance(c, DJ.Iter)]
LEMMAS = [UnescapeLemma(), KeyLemma()]
