"""Contracts: openformats/formats/srt.py and vtt.py"""
import z3

from pyvc.core import (Val, sv, iv, sl, suffix, prefix, substr, cat, Str, Int)
from pyvc.contracts import Contract, positions, as_int
from pyvc.interp import (Obj, ListV, SymLst, SymAny, ClassV, Unsupported,
                         UNBOUND)
from pyvc.models import ALLWS, IterV, ws_char
from . import s_client
from .s_client import (TEXT, KEY, HASH, ORDER, PAIRS, Tr, dest_of, mk_parse,
                       ref_attr, subs_follow)

SRT = "openformats.formats.srt"
VTT = "openformats.formats.vtt"


def handler(ex, mod, cls):
    return Obj(ex, ex.global_(ex.world.module(mod), cls))


def section_facts(ex, content, start, sec, prev):
    """a subtitle block found at `start` of the content"""
    n = ex.length(sec)
    return z3.And(0 <= prev, prev <= start, n > 0,
                  start + n <= z3.Length(content),
                  sl(content, start, start + n) == sec,
                  z3.Not(ws_char(ex.sub(sec, 0, 1))),
                  z3.Not(ws_char(ex.sub(sec, n - 1, n))))


def between(content, a, b):
    """only white space between two positions"""
    return ALLWS(sl(content, a, b))


class BlockIter(IterV):
    """what a caller may rely on when iterating the blocks"""

    def __init__(self, ex, content):
        IterV.__init__(self, ex)
        self.content = content
        ex.hset(self, "end", z3.IntVal(0))

    def next(self, ex):
        c, end = self.content, ex.hget(self, "end")
        ex.assume(z3.And(0 <= end, end <= z3.Length(c)))
        if not ex.branch(ex.fresh("bool", "more")):
            ex.assume(ALLWS(suffix(c, end)))
            return False, None
        start, stop = ex.fresh("int", "start"), ex.fresh("int", "stop")
        sec = sl(c, start, stop)
        ex.assume(z3.And(0 <= end, end <= start, start < stop,
                         stop <= z3.Length(c)))
        ex.assume(z3.Not(ws_char(substr(c, start, 1))))
        ex.assume(z3.Not(ws_char(substr(c, stop - 1, 1))))
        ex.assume(between(c, end, start))
        h = ex.spec_state.get("on_block")
        if h:
            h(ex, start, stop, c)
        ex.hset(self, "end", stop)
        return True, (start, sec)


class Blocks(Contract):
    hom_points, unroll, int_fast = 14, True, 2.0
    func_ = "_generate_split_subtitles"

    def __init__(self, mod, cls):
        self.module, self.cls = mod, cls
        self.func = cls + "." + self.func_
        self.templates = [self.ws_between]

    def setup(self, ex):
        g = Obj(ex, "ghost")
        ex.hset(g, "end", z3.IntVal(0))
        c = z3.String("content")
        ex.spec_state["ghost"] = g
        ex.spec_state["yield_fn"] = "%s.%s" % (self.module, self.func)

        def on_yield(ex, frame, v):
            ok = isinstance(v, tuple) and len(v) == 2 and ex.is_int(v[0]) \
                and ex.is_str(v[1])
            ex.require("yields a position and a text", ok)
            if not ok:
                return
            end = ex.hget(g, "end")
            start, sec = ex.named(v[0]), sv(v[1])
            new_end = ex.named(start + ex.length(sec), "end")
            ex.require("each block is the text at its position, after the "
                       "previous one, without surrounding space",
                       section_facts(ex, c, start, sec, end))
            ex.require("only white space is left between blocks",
                       between(c, end, start))
            ex.hset(g, "end", new_end)
        ex.spec_state["on_yield"] = on_yield
        return [handler(ex, self.module, self.cls), c], {}, {"c": c, "g": g}

    def ws_between(self, ex, st):
        g = ex.spec_state.get("ghost")
        loc = ("h", g.oid, "end")
        out = []
        if loc not in st.info.writes:
            return out
        for k, t in enumerate(st.consts_str()):
            out.append(("spec:end<=len%d" % k, lambda s, t=t:
                        as_int(s, loc) <= z3.Length(t)))
            for pn, pg in positions(ex, st):
                if pn == "%s" % (loc,):
                    continue
                out.append(("spec:ws(%d,%s)" % (k, pn), lambda s, t=t, pg=pg:
                            z3.If(pg(s) <= z3.Length(t),
                                  between(t, as_int(s, loc), pg(s)),
                                  ALLWS(suffix(t, as_int(s, loc))))))
        return out

    def ret(self, ex, env, v):
        ex.require("only white space is left after the last block",
                   ALLWS(suffix(env["c"], ex.hget(env["g"], "end"))))

    def call(self, ex, args, kwargs):
        c = ex.resolve_any(args[1])
        if not ex.is_str(c):
            raise Unsupported("content is no text")
        return BlockIter(ex, sv(c))


class Timing(Contract):
    def __init__(self, mod, cls, allowed):
        self.module, self.func = mod, cls + "._format_timing"
        self.cls, self.allowed_exc = cls, allowed

    def setup(self, ex):
        o = handler(ex, self.module, self.cls)
        ex.hset(o, "transcriber", new_tr(ex))
        return [o, z3.String("timing")], {}, {}

    def ret(self, ex, env, v):
        ex.require("a text", ex.is_str(v))

    def call(self, ex, args, kwargs):
        k = ex.choose([True] * (1 + len(self.allowed_exc)))
        if k:
            n = self.allowed_exc[k - 1]
            if n == "ParseError":
                ex.raise_(ex.global_(ex.world.module(
                    "openformats.exceptions"), n))
            ex.raise_(n)
        return ex.fresh("str", "timing")


def new_tr(ex, ptr=None):
    o = s_client.trc(ex)
    ex.hset(o, "source", z3.String("source"))
    p = z3.Int("ptr0")
    ex.assume(z3.And(0 <= p, p <= z3.Length(z3.String("source"))))
    ex.hset(o, "ptr", p)
    ex.hset(o, "subs", SymLst(z3.Const("subs0", s_client.Lst)))
    ex.hset(o, "pend", None)
    return o


class Section(Contract):
    """_parse_section(offset, section) -> (offset of the text, string)"""
    allowed_exc = ("ParseError",)

    def __init__(self, mod, cls, none_ok):
        self.module, self.cls, self.none_ok = mod, cls, none_ok
        self.func = cls + "._parse_section"

    def setup(self, ex):
        ex.spec_state["ref_attr"] = ref_attr
        o = handler(ex, self.module, self.cls)
        ex.hset(o, "transcriber", new_tr(ex))
        mo = ex.fresh("any", "max_order")
        if self.none_ok:
            from pyvc.models import CountIter
            ex.hset(o, "_order", CountIter(ex, z3.Int("order0")))
        else:
            ex.assume(z3.Or(Val.is_VNone(mo.term), Val.is_VInt(mo.term)))
            ex.hset(o, "max_order", mo)
        off, sec = z3.Int("offset"), z3.String("section")
        content = z3.String("content")
        ex.assume(section_facts(ex, content, off, sec, z3.IntVal(0)))
        return [o, off, sec], {}, dict(o=o, off=off, sec=sec, mo=mo.term)

    def post(self, off, sec, off2, v, o2=None):
        t = TEXT(v)
        return z3.And(off < off2, z3.Length(t) > 0,
                      off2 + z3.Length(t) == off + z3.Length(sec),
                      substr(sec, off2 - off, z3.Length(t)) == t,
                      substr(sec, off2 - off - 1, 1) == "\n",
                      z3.Not(s_client.PLURAL(v)))

    def ret(self, ex, env, v):
        ok = isinstance(v, tuple) and len(v) == 2
        if ok and self.none_ok and v[1] is None:
            ex.require("a block without text gives no string", v[0] is None)
            return
        ok = ok and ex.is_int(v[0]) and isinstance(v[1], SymAny)
        ex.require("gives an offset and a string", ok)
        if not ok:
            return
        s = v[1].term
        ex.require("the string is the rest of the block from the offset on, "
                   "which starts a line",
                   self.post(env["off"], env["sec"], iv(v[0]), s))
        if not self.none_ok:
            mo, now = env["mo"], ex.getattr(env["o"], "max_order")
            ex.require("order numbers are positive and ascend", z3.And(
                Val.is_VInt(ORDER(s)), Val.vi(ORDER(s)) > 0,
                ex.to_val(now) == ORDER(s),
                z3.Implies(Val.is_VInt(mo), Val.vi(ORDER(s)) > Val.vi(mo))))
            ex.require("the key is the order line", KEY(s) == sv(
                ex.models.str_method(ex, first_line(env["sec"]), "strip", [],
                                     {})))

    def call(self, ex, args, kwargs):
        o, off, sec = args
        off, sec = iv(off), sv(sec)
        k = ex.choose([True, True] + [True] * bool(self.none_ok))
        if k == 1:
            ex.raise_(ex.global_(ex.world.module("openformats.exceptions"),
                                 "ParseError"))
        if k == 2:
            return None, None
        off2, v = ex.fresh("int", "text_at"), Val.VRef(ex.fresh("int", "os"))
        ex.assume(self.post(off, sec, off2, v))
        ex.assume(z3.Length(HASH(v)) == 35)
        if not self.none_ok:
            ex.hset(o, "max_order", ex.fresh("any", "max_order"))
        return off2, SymAny(v)


def first_line(sec):
    return prefix(sec, z3.IndexOf(sec, z3.StringVal("\n"), 0))


def _vtt_more(self, ex, env, v):
    ex.require("a stringset that is not empty",
               z3.Not(ex.lst_term(v[1]) == s_client.NIL))
    ex.require("the file starts with WEBVTT",
               z3.PrefixOf(z3.StringVal("WEBVTT"), sv(v[0])))


class Compile(Contract):
    """every block either gets its string's text for the placeholder or is
    removed whole; nothing else changes"""
    func_ = "compile"
    hom_points = 16
    templates = []

    def __init__(self, mod, cls):
        self.module, self.func, self.cls = mod, cls + ".compile", cls

    def setup(self, ex):
        ex.spec_state["ref_attr"] = ref_attr
        ex.spec_state["plain_strings"] = True
        o = handler(ex, self.module, self.cls)
        ss = ListV(ex, SymLst(z3.Const("stringset", s_client.Lst)))
        ex.spec_state.update(on_skip=self.on_skip, on_remove=self.on_remove,
                             on_block=self.on_block)
        ex.spec_state["list_elem"] = lambda ex, t, pre, x: ex.assume(
            Val.is_VRef(x))
        return [o, z3.String("template"), ss], {}, {"o": o}

    def on_block(self, ex, start, stop, c):
        """blocks of a template that parse made have their text, now a
        placeholder, after two (SRT) newlines"""
        ex.spec_state["block"] = (start, stop)
        if self.cls == "SrtHandler":
            p, q = ex.fresh("int", "nl"), ex.fresh("int", "nl")
            ex.assume(z3.And(start <= p, p < q, q < stop,
                             substr(c, p, 1) == "\n",
                             substr(c, q, 1) == "\n"))

    def on_skip(self, ex, t, hidden):
        p = t.pend
        if p is None or not isinstance(p, z3.ExprRef) or \
                p.decl().name() != "os_text":
            raise Unsupported("compile writes something else than the text "
                              "of a string")
        ex.require("compile: what a string's text replaces is that string's "
                   "placeholder", hidden == HASH(p.arg(0)))

    def on_remove(self, ex, t):
        b = ex.spec_state.get("block")
        ex.require("compile: what is removed is one whole block", z3.And(
            iv(t.secptr) == b[0], iv(t.secend) == b[1]))

    def ret(self, ex, env, v):
        snap = dest_of(ex, v)
        ex.require("compile: returns the transcribed text", snap is not None)
        if snap is None:
            return
        ex.require("compile: the whole template is transcribed",
                   iv(snap["ptr"]) == z3.Length(sv(snap["source"])))


CONTRACTS = [
    Blocks(SRT, "SrtHandler"), Blocks(VTT, "VttHandler"),
    Timing(SRT, "SrtHandler", ("ValueError",)),
    Timing(VTT, "VttHandler", ("ValueError", "ParseError")),
    Section(SRT, "SrtHandler", False), Section(VTT, "VttHandler", True),
    mk_parse(SRT, "SrtHandler"),
    mk_parse(VTT, "VttHandler", more=_vtt_more),
    Compile(SRT, "SrtHandler"), Compile(VTT, "VttHandler"),
]
EXTRA = s_client.RULES
LEMMAS = [s_client.TraceLemma()]
