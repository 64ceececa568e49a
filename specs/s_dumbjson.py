"""Contracts: openformats/utils/json.py  DumbJson"""
import z3

from pyvc import core
from pyvc.core import (Val, sv, iv, sl, suffix, prefix, cat, substr, Str, Int,
                       Bool)
from pyvc.contracts import Contract, Lemma, positions, as_int, bound_args
from pyvc.interp import (Obj, ListV, SymLst, SymAny, TypeV, Unsupported,
                         UNBOUND)
from pyvc.models import ALLWS, IterV, ws_char

M = "openformats.utils.json"

# a dangling backslash at the end / no unescaped quote so far
AFTER = core.Scan("after_backslash", Bool, False,
                  lambda f, x, c: z3.And(c == "\\", z3.Not(f)),
                  lambda s: (len(s) - len(s.rstrip("\\"))) % 2 == 1)


def _noq(s):
    a = False
    for c in s:
        if c == '"' and not a:
            return False
        a = c == "\\" and not a
    return True


NOQUOTE = core.Scan("no_unescaped_quote", Bool, True,
                    lambda f, x, c: z3.And(f, z3.Not(z3.And(
                        c == '"', z3.Not(AFTER(x))))), _noq)


def charset(name, chars):
    """all characters are white space or one of chars"""
    return Only(name, Bool, True, lambda a, b: z3.And(a, b),
                lambda c: z3.Or([ALLWS(c)] + [c == x for x in chars]),
                lambda s: all(x.isspace() or x in chars for x in s))


class Only(core.Hom):
    def base(self, t):      # lemma.only
        return core.Hom.base(self, t) + [z3.Implies(ALLWS(t), self.f(t))]


class OnlyLemma(Lemma):
    """white space is white space and nothing else: by induction"""
    name = "lemma.only"

    def vcs(self):
        x, c = z3.Strings("x c")
        for h in DSEP.values():
            H = h.f
            yield (h.name, [
                z3.Length(c) == 1, z3.Implies(ALLWS(x), H(x)),
                ALLWS(z3.Concat(x, c)) == z3.And(ALLWS(x), ALLWS(c)),
                H(z3.Concat(x, c)) == z3.And(H(x), h.char(c))],
                z3.Implies(ALLWS(z3.Concat(x, c)), H(z3.Concat(x, c))))


def found(src, start, syms, ws, sym, p):
    between = sl(src, start, p)
    out = [iv(start) <= p, p < z3.Length(src),
           substr(src, p, 1) == sym,
           z3.Or([sv(sym) == x for x in syms])]
    if ws:
        out.append(ALLWS(between))
    elif list(syms) == ['"']:
        out += [NOQUOTE(between), z3.Not(AFTER(between))]
    return z3.And(out)


def nothing(src, start, syms, ws):
    rest = suffix(src, start)
    if ws:
        return ALLWS(rest)
    if list(syms) == ['"']:
        return NOQUOTE(rest)
    return z3.BoolVal(True)


def dumb(ex, src, start=None):
    o = Obj(ex, ex.global_(ex.world.module(M), "DumbJson"))
    ex.hset(o, "source", src)
    if start is not None:
        ex.hset(o, "start", start)
    return o


class FindNext(Contract):
    module, func = M, "DumbJson._find_next"
    hom_points = 10

    def __init__(self, syms, ws):
        self.syms, self.ws = syms, ws
        self.name = "DumbJson._find_next(%r, whitespace=%s)" % (
            "".join(syms), ws)
        self.templates = [self.state]

    def setup(self, ex):
        src, start = z3.String("source"), z3.Int("start")
        ex.assume(z3.And(0 <= start, start <= z3.Length(src)))
        syms = self.syms if isinstance(self.syms, str) else \
            ListV(ex, tuple(self.syms))
        self.allowed_exc = ("ValueError",) if self.ws else ()
        return [dumb(ex, src), syms, start, self.ws], {}, dict(
            src=src, start=start)

    def state(self, ex, st):
        src, start = z3.String("source"), z3.Int("start")
        out = []
        for pn, pg in positions(ex, st):
            def t(s, pg=pg):
                return sl(src, start, pg(s))
            if self.ws:
                out.append(("spec:ws(%s)" % pn,
                            lambda s, t=t: ALLWS(t(s))))
            if '"' in self.syms:
                out.append(("spec:noquote(%s)" % pn,
                            lambda s, t=t: NOQUOTE(t(s))))
                for loc in st.locs(lambda v: ex.is_bool(v)):
                    out.append(("spec:not %s" % (loc,), lambda s, l=loc: None
                                if not ex.is_bool(s.get(l)) else
                                ex.neg(s.get(l))))
                    out.append(("spec:%s=after(%s)" % (loc, pn),
                                lambda s, l=loc, t=t: None
                                if not ex.is_bool(s.get(l)) else
                                s.get(l) == AFTER(t(s))))
        return out

    def ret(self, ex, env, v):
        ok = isinstance(v, tuple) and len(v) == 2
        src, start = env["src"], env["start"]
        if ok and v[0] is None:
            ex.require("nothing found: none of the symbols is there", z3.And(
                v[1] is None, nothing(src, start, self.syms, self.ws)))
            return
        ok = ok and ex.is_str(v[0]) and ex.is_int(v[1])
        ex.require("gives a symbol and its position", ok)
        if ok:
            ex.require("the first of the symbols, nothing but %s before it" % (
                "white space" if self.ws else "other text"),
                found(src, start, self.syms, self.ws, sv(v[0]), iv(v[1])))

    def call(self, ex, args, kwargs):
        d = bound_args(ex, ex.find_func(M, self.func), args, kwargs)
        o, syms, start, ws = [d[k] for k in (
            "self", "symbols", "start", "require_whitespace")]
        if isinstance(syms, ListV):
            syms = ex.concrete_items(syms)
        syms = tuple(syms)
        if not (isinstance(ws, bool) and all(
                isinstance(x, str) for x in syms)):
            raise Unsupported("_find_next with unknown symbols")
        start = ex.resolve_any(start)
        if not ex.is_int(start):
            ex.raise_("TypeError")
        src = sv(ex.getattr(o, "source"))
        ex.require("_find_next: starts inside the source",
                   z3.And(0 <= iv(start), iv(start) <= z3.Length(src)))
        closed = ex.spec_state.get("valid_json")
        # in valid JSON one of the symbols is always there
        k = 0 if closed else ex.choose([True, True] + [True] * ws)
        if k == 0:
            p = ex.fresh("int", "pos")
            if len(syms) == 1:
                sym = syms[0]
            else:
                sym = ex.fresh("str", "sym")
            ex.assume(found(src, start, syms, ws, sv(sym), p))
            if len(syms) > 1:
                i = ex.choose([sym == x for x in syms])
                sym = syms[i]
            return sym, p
        if k == 1:
            ex.assume(nothing(src, start, syms, ws))
            return None, None
        ex.raise_("ValueError")


NUMCH = core.Hom("number_chars", Bool, True, lambda a, b: z3.And(a, b),
                 lambda c: z3.And([c != x for x in '"{}[],:\\']),
                 lambda s: not any(x in '"{}[],:\\' for x in s))


class Process(Contract):
    """_process_value(start) -> (text of the value or its first symbol,
    computed value, position)"""
    module, func = M, "DumbJson._process_value"
    allowed_exc = ("ValueError",)

    def setup(self, ex):
        src, start = z3.String("source"), z3.Int("start")
        ex.assume(z3.And(0 <= start, start <= z3.Length(src)))
        ex.spec_state["json_loads"] = json_literal
        return [dumb(ex, src), start], {}, dict(src=src, start=start)

    def post(self, src, start, s, p):
        n = z3.Length(s)
        return z3.And(iv(start) <= p, p + n <= z3.Length(src), n > 0,
                      substr(src, p, n) == s, ALLWS(sl(src, start, p)))

    def ret(self, ex, env, v):
        ok = isinstance(v, tuple) and len(v) == 3 and ex.is_str(v[0]) and \
            ex.is_int(v[2])
        ex.require("gives the text, the value and the position", ok)
        if not ok:
            return
        s, src, start = sv(v[0]), env["src"], env["start"]
        ex.require("the value's text stands at the position, only white "
                   "space is before it", self.post(src, start, s, iv(v[2])))
        quick = z3.Or(s == '"', s == "{", s == "[")
        if v[1] is None:
            ex.require("without a computed value it is a string, a "
                       "dictionary, a list or null",
                       z3.Or(quick, s == "null"))
        else:
            ex.require("a computed value comes from a literal",
                       z3.And(z3.Not(quick)))

    def call(self, ex, args, kwargs):
        o, start = args
        start = ex.resolve_any(start)
        if not ex.is_int(start):
            ex.raise_("TypeError")
        src = sv(ex.getattr(o, "source"))
        k = ex.choose([True] * 6)
        if k == 5:
            ex.raise_("ValueError")
        p = ex.fresh("int", "value_at")
        if k < 4:
            s, c = ('"', "{", "[", "null")[k], None
            ex.assume(self.post(src, start, sv(s), p))
        else:
            s = ex.fresh("str", "literal")
            ex.assume(self.post(src, start, s, p))
            ex.assume(z3.And([s != x for x in ('"', "{", "[", "null")]))
            c = Obj(ex, "json value")
        ex.spec_state["literal"] = (p, sv(s))
        return s, c, p


def json_literal(ex, s):
    """json.loads of true/false/null or a number"""
    if ex.branch(sv(s) == "null"):
        return None
    ex.trusted.add("json.loads of a JSON literal gives a value that is not "
                   "None, unless it is null")
    return Obj(ex, "json value")


class Init(Contract):
    module, func = M, "DumbJson.__init__"
    allowed_exc = ("ValueError",)

    def setup(self, ex):
        src, start = z3.String("source"), z3.Int("start")
        ex.assume(z3.And(0 <= start, start <= z3.Length(src)))
        o = dumb(ex, None)
        return [o, src, start], {}, dict(o=o, src=src, start=start)

    def ret(self, ex, env, v):
        o, src, start = env["o"], env["src"], env["start"]
        p, t = ex.getattr(o, "start"), ex.getattr(o, "type")
        ok = ex.is_int(p) and isinstance(t, TypeV) and t.name in (
            "dict", "list")
        ex.require("the container has a start and a type", ok)
        if ok:
            ex.require("the container starts at the first symbol, which "
                       "tells its type", z3.And(
                           iv(start) <= p, p < z3.Length(src),
                           ALLWS(sl(src, start, p)), substr(src, p, 1) ==
                           ("{" if t.name == "dict" else "[")))
        ex.require("the source is kept", sv(ex.getattr(o, "source")) == src)


END = z3.Function("container_end", Str, Int, Int)
ITEMS = z3.Function("container_items", Str, Int, core.Lst)
EMPTY = z3.Function("container_is_empty", Str, Int, Bool)


class New(Contract):
    """DumbJson(source, start), by DumbJson.__init__; where it ends is where
    its iteration ends"""
    module, class_ctor, func = M, "DumbJson", "DumbJson"
    why = "DumbJson.__init__ and the end of its own iteration"

    def call(self, ex, args, kwargs):
        src = ex.resolve_any(args[0])
        start = ex.resolve_any(args[1] if len(args) > 1 else
                               kwargs.get("start", 0))
        k = ex.choose([True] * 3)
        if k == 2:
            ex.raise_("ValueError")
        p = ex.fresh("int", "start")
        sym = "{["[k]
        ex.assume(found(sv(src), start, (sym,), True, sv(sym), p))
        return container(ex, sv(src), p, ("dict", "list")[k])


def container(ex, src, p, kind):
    o = dumb(ex, src, p)
    e = END(src, p)
    ex.assume(z3.And(p < e, e < z3.Length(src), substr(src, e, 1) ==
                     ("}" if kind == "dict" else "]")))
    ex.hset(o, "type", TypeV(kind))
    ex.hset(o, "end", e)
    return o


DSEP = {k: charset("only_%s" % n, k) for n, k in (
    ("space", ""), ("comma", ","), ("colon", ":"))}


def only(src, a, b, ch):
    """white space and one ch (or nothing but white space)"""
    if not ch:
        return ALLWS(sl(src, a, b))
    return z3.And(DSEP[ch](sl(src, a, b)))


def span(ex, text):
    """the length of a text, as plain as possible"""
    if text.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and ex.inb(*text.children()):
        return z3.simplify(text.arg(2))
    return z3.Length(text)


def string_at(ex, src, p, text):
    """a JSON string's body stands at p, in quotes"""
    n = span(ex, text)
    return z3.And(p >= 1, p + n < z3.Length(src),
                  substr(src, p - 1, 1) == '"', substr(src, p, n) == text,
                  substr(src, p + n, 1) == '"', NOQUOTE(text),
                  z3.Not(AFTER(text)))


def text_at(ex, src, p, n):
    """the body of the JSON string at p, of n characters"""
    ex.assume(z3.And(n >= 0, p >= 1, p + n < z3.Length(src)))
    t = sl(src, p, p + n)
    ex.assume(string_at(ex, src, p, t))
    return t


class Iter(Contract):
    """iterating a container gives every item, in order, with its exact text
    and position"""
    allowed_exc = ("ValueError", "TypeError")
    hom_points = 16
    fast, slow = 1.0, 3.0
    opaque = ("no_unescaped_quote", "after_backslash")

    def __init__(self, kind):
        self.module, self.kind = M, kind
        self.func = "DumbJson._iter_" + kind
        self.templates = [self.at_end]

    def setup(self, ex):
        src, p = z3.String("source"), z3.Int("at")
        o = dumb(ex, src, p)
        ex.hset(o, "_end", None)
        ex.hset(o, "type", TypeV(self.kind))
        ex.assume(z3.And(0 <= p, p < z3.Length(src), substr(src, p, 1) ==
                         ("{" if self.kind == "dict" else "[")))
        g = Obj(ex, "ghost")
        ex.hset(g, "end", p + 1)
        ex.hset(g, "first", True)
        ex.spec_state["ghost"] = g
        # precondition: the handlers have validated the source as JSON
        ex.spec_state["valid_json"] = True
        ex.spec_state["json_loads"] = json_literal
        ex.spec_state["yield_fn"] = "%s.%s" % (self.module, self.func)
        ex.spec_state["on_yield"] = \
            lambda ex, fr, v: self.item(ex, src, g, v)
        return [o], {}, dict(o=o, src=src, g=g)

    def item(self, ex, src, g, v):
        n = 4 if self.kind == "dict" else 2
        ok = isinstance(v, tuple) and len(v) == n and ex.is_int(v[-1])
        if ok and n == 4:
            ok = ex.is_str(v[0]) and ex.is_int(v[1])
        ex.require("yields keys, values and positions", ok)
        if not ok:
            return
        at = ex.hget(g, "end")
        first = ex.hget(g, "first")
        sep = z3.If(first, z3.BoolVal(True), z3.BoolVal(True))
        val, vp = v[-2], iv(v[-1])
        start = vp - 1 if ex.is_str(val) else vp
        if n == 4:
            key, kp = sv(v[0]), iv(v[1])
            ex.require("each key is the text of a JSON string at its "
                       "position", string_at(ex, src, kp, key))
            ex.require("nothing but white space and commas before a key",
                       z3.And(at <= kp - 1, only(src, at, kp - 1, ",")))
            ke = ex.named(kp + span(ex, key) + 1, "key_end")
            ex.require("nothing but white space and the colon between key "
                       "and value", z3.And(ke <= start,
                                           only(src, ke, start, ":")))
        else:
            ex.require("nothing but white space and commas before an item",
                       z3.And(at <= start, only(src, at, start, ",")))
        if ex.is_str(val):
            ex.require("each string value is the text of a JSON string at "
                       "its position", string_at(ex, src, vp, sv(val)))
            end = vp + span(ex, sv(val)) + 1
        elif isinstance(val, Obj) and val.cls != "json value":
            ex.require("an embedded container starts at its position",
                       iv(ex.getattr(val, "start")) == vp)
            end = ex.getattr(val, "end") + 1
        else:
            p, s = ex.spec_state["literal"]
            ex.require("a literal stands at its position", p == vp)
            end = p + z3.Length(s)
        ex.hset(g, "end", ex.named(end, "end"))
        ex.hset(g, "first", False)

    def call(self, ex, args, kwargs):
        return ItemIter(ex, args[0])

    def at_end(self, ex, st):
        g = ex.spec_state["ghost"]
        src = z3.String("source")
        out = []
        loc = ("h", g.oid, "end")
        if loc not in st.info.writes:
            return out
        for pn, pg in positions(ex, st):
            if pn != "%s" % (loc,):
                out.append(("spec:comma(end,%s)" % pn, lambda s, pg=pg: z3.And(
                    as_int(s, loc) <= pg(s),
                    only(src, as_int(s, loc), pg(s), ","))))
        return out

    def ret(self, ex, env, v):
        e = ex.getattr(env["o"], "_end")
        ex.require("the end is known after the iteration", ex.is_int(e))
        if not ex.is_int(e):
            return
        ex.require("the container ends at its closing symbol, nothing but "
                   "white space is left before it", z3.And(
                       substr(env["src"], e, 1) == (
                           "}" if self.kind == "dict" else "]"),
                       ex.hget(env["g"], "end") <= e,
                       only(env["src"], ex.hget(env["g"], "end"), e, "")))


class ItemIter(IterV):
    """what Iter proves, for callers: next item of a container"""

    def __init__(self, ex, o):
        IterV.__init__(self, ex)
        self.o = o
        self.src = sv(ex.getattr(o, "source"))
        self.at = iv(ex.getattr(o, "start"))
        self.kind = ex.getattr(o, "type").name
        ex.hset(self, "end", self.at + 1)
        ex.hset(self, "count", z3.IntVal(0))

    def as_list(self, ex):
        l = ITEMS(self.src, self.at)
        ex.assume((l == core.NIL) == EMPTY(self.src, self.at))
        if ex.spec_state.get("may_fail") and ex.choose([True, True]):
            ex.raise_("ValueError")
        return ListV(ex, SymLst(l))

    def next(self, ex):
        src, at = self.src, iv(ex.hget(self, "end"))
        E = END(src, self.at)
        k = ex.choose([True] * 5)
        ex.assume(EMPTY(src, self.at) == (ex.hget(self, "count") == 0)
                  if k == 0 else z3.Not(EMPTY(src, self.at)))
        if k == 0:
            ex.assume(z3.And(at <= E, E < z3.Length(src)))
            ex.hset(self.o, "_end", E)
            return False, None
        if ex.spec_state.get("may_fail"):
            if ex.choose([True, True]):
                ex.raise_("ValueError")
        key = ()
        if self.kind == "dict":
            kp, n = ex.fresh("int", "key_at"), ex.fresh("int", "key_len")
            key = (text_at(ex, src, kp, n), kp)
            ex.assume(at < kp)
            at = kp + n + 1
        vp = ex.fresh("int", "value_at")
        if k == 1:
            n = ex.fresh("int", "value_len")
            v = text_at(ex, src, vp, n)
            ex.assume(at < vp)
            end = vp + n + 1
        elif k in (2, 3):
            kind = ("dict", "list")[k - 2]
            ex.assume(z3.And(at <= vp, substr(src, vp, 1) == "{["[k - 2]))
            v = container(ex, src, vp, kind)
            end = END(src, vp) + 1
        else:
            v = Obj(ex, "json value")
            if ex.choose([True, True]):
                v = None
            end = ex.fresh("int", "literal_end")
            ex.assume(z3.And(at <= vp, vp < end))
        end = ex.named(end, "item_end")
        ex.assume(end <= E)
        ex.hset(self, "end", end)
        ex.hset(self, "count", ex.hget(self, "count") + 1)
        ex.spec_state["item"] = (key, v, vp, end)
        h = ex.spec_state.get("on_item")
        if h:
            h(ex, self)
        return True, key + (v, vp)


class End(Contract):
    """container.end: where its closing symbol is, however far it was
    iterated before"""
    module, func = M, "DumbJson.end"

    def setup(self, ex):
        src, p = z3.String("source"), z3.Int("at")
        o = dumb(ex, src, p)
        kind = ("dict", "list")[ex.choose([True, True])]
        ex.hset(o, "type", TypeV(kind))
        ex.assume(z3.And(0 <= p, p < z3.Length(src)))
        known = ex.choose([True, True])
        ex.hset(o, "_end", END(src, p) if known else None)
        return [o], {}, dict(src=src, p=p)

    def ret(self, ex, env, v):
        ok = ex.is_int(v)
        ex.require("the end is a position", ok)
        if ok:
            ex.require("it is where the iteration ends",
                       iv(v) == END(env["src"], env["p"]))


CONTRACTS = [FindNext(s, w) for s, w in (
    ('"', False), ('"', True), (":", True), (",}", True), (",]", True),
    ("{[", True), (('"', "}"), True))] + [
    Process(), Init(), Iter("dict"), Iter("list"), End()]
EXTRA = [New()]
LEMMAS = [OnlyLemma()]
