"""Contracts: openformats/utils/newlines.py and openformats/transcribers.py"""
import z3

from pyvc import core
from pyvc.core import (Val, Lst, NIL, snoc, sv, iv, sl, substr, suffix,
                       prefix, cat, Str, Int, Bool, JOIN, LLEN, CNT_NL)
from pyvc.contracts import (Contract, mk_acc_is_fn_of_prefix, acc_terms,
                            positions, list_prefixes, bound_args)
from pyvc.interp import (Obj, ListV, SymLst, SymAny, ClassV, Unsupported)
from pyvc.models import repl_fn

NL = "openformats.utils.newlines"
TR = "openformats.transcribers"

UNIX = repl_fn("\r\n", "\n")          # drop the \r of every \r\n
DOSIFY = repl_fn("\n", "\r\n")        # every \n -> \r\n


def style(s):
    """DOS iff the first newline is preceded by a carriage return"""
    k = z3.IndexOf(s, z3.StringVal("\n"), 0)
    return z3.If(z3.And(z3.Contains(s, "\n"), k > 0,
                        substr(s, k - 1, 1) == "\r"),
                 z3.StringVal("DOS"), z3.StringVal("UNIX"))


class FindNewlineType(Contract):
    module, func = NL, "find_newline_type"

    def setup(self, ex):
        s = z3.String("content")
        return [s], {}, {"s": s}

    def ret(self, ex, env, v):
        ex.require("find_newline_type: DOS iff first newline follows \\r",
                   sv(v) == style(env["s"]) if ex.is_str(v) else False)

    def call(self, ex, args, kwargs):
        return style(sv(args[0]))


class ForceNewlineType(Contract):
    module, func = NL, "force_newline_type"

    def setup(self, ex):
        s, t = z3.String("content"), z3.String("newline_type")
        return [s, t], {}, {"s": s, "t": t}

    def spec(self, s, t):
        return z3.If(t == "DOS", DOSIFY(UNIX(s)), UNIX(s))

    def ret(self, ex, env, v):
        ex.require("force_newline_type: every newline in the wanted style",
                   sv(v) == self.spec(env["s"], env["t"])
                   if ex.is_str(v) else False)

    def call(self, ex, args, kwargs):
        names = ["content", "newline_type"]
        d = dict(zip(names, args))
        d.update(kwargs)
        return self.spec(sv(d["content"]), sv(d["newline_type"]))



# ---------------------------------------------------------------- Transcriber
DOS = lambda t: DOSIFY(UNIX(t))


def _el(f):
    return lambda v: z3.If(Val.is_VStr(v), f(Val.vs(v)), z3.StringVal(""))


FLAT = core.LHom("flat", Str, "", lambda a, b: z3.Concat(a, b),
                 _el(lambda t: t))
FLAT_DOS = core.LHom("flat_dos", Str, "", lambda a, b: z3.Concat(a, b),
                     _el(DOS))


class State(object):
    """abstract view of a Transcriber object in the heap"""

    def __init__(self, ex, o):
        self.source = ex.hget(o, "source")
        d = ex.hget(o, "destination")
        self.dest = ex.lst_term(d)
        self.ptr = ex.hget(o, "ptr")
        self.count = ex.hget(o, "newline_count")
        self.type = ex.hget(o, "newline_type")


def cls_of(ex):
    return ex.global_(ex.world.module(TR), "Transcriber")


def elem_ok(ex, x):
    c = cls_of(ex)
    a = ex.class_attr(c, "SectionStart")
    b = ex.class_attr(c, "SectionEnd")
    return z3.Or(Val.is_VStr(x), Val.is_VNone(x), x == Val.VTag(a.tag),
                 x == Val.VTag(b.tag))


def new_transcriber(ex):
    o = Obj(ex, cls_of(ex))
    src = z3.String("source")
    ex.hset(o, "source", src)
    d = ListV(ex, SymLst(z3.Const("dest0", Lst)))
    ex.hset(o, "destination", d)
    ptr, n, ty = z3.Int("ptr0"), z3.Int("nl0"), z3.String("newline_type")
    ex.hset(o, "ptr", ptr)
    ex.hset(o, "newline_count", n)
    ex.hset(o, "newline_type", ty)
    # class invariant
    ex.assume(z3.And(0 <= ptr, ptr <= z3.Length(src)))
    ex.assume(n == CNT_NL(prefix(src, ptr)))
    ex.assume(z3.Or(ty == "UNIX", ty == "DOS"))
    ok = z3.Function("elems_ok", Lst, Bool)

    def list_elem(ex, term, pre, x):
        # class invariant: the destination holds text, None and the markers
        ex.assume(elem_ok(ex, x))
    ex.spec_state["list_elem"] = list_elem
    return o


class TrMethod(Contract):
    module = TR
    moves = True

    def setup(self, ex):
        o = new_transcriber(ex)
        st = State(ex, o)
        extra = self.args(ex, st)
        return [o] + extra, {}, {"o": o, "old": st, "args": extra}

    def args(self, ex, st):
        return []

    def target(self, st, args):
        return st.ptr

    def text(self, st, args):
        """what must be appended to the output"""
        return ""

    def ret(self, ex, env, v):
        old, new = env["old"], State(ex, env["o"])
        L = self.label()
        end = self.target(old, env["args"])
        ex.require(L + ": source and newline type untouched", z3.And(
            sv(new.source) == sv(old.source), sv(new.type) == sv(old.type)))
        ex.require(L + ": pointer", iv(new.ptr) == end)
        t = self.text(old, env["args"])
        ex.require(L + ": output grows by exactly the text",
                   FLAT(new.dest) == cat(FLAT(old.dest), t))
        ex.require(L + ": output (DOS rendering) grows by exactly the text",
                   FLAT_DOS(new.dest) == cat(FLAT_DOS(old.dest), DOS(sv(t))))
        ex.require(L + ": newline count equals newlines passed",
                   iv(new.count) == CNT_NL(prefix(sv(old.source), end)))

    def call(self, ex, args, kwargs):
        fn = ex.find_func(self.module, self.func)
        d = bound_args(ex, fn, args, kwargs)
        o, rest = args[0], [d[a.arg] for a in fn.node.args.args[1:]]
        old = State(ex, o)
        L = "call of " + self.label()
        end = self.target(old, rest)
        ex.require(L + ": range inside the source and not backwards", z3.And(
            0 <= iv(old.ptr), iv(old.ptr) <= iv(end),
            iv(end) <= z3.Length(sv(old.source))))
        ex.require(L + ": class invariant", iv(old.count) == CNT_NL(
            prefix(sv(old.source), old.ptr)))
        t = self.text(old, rest)
        d2 = ex.fresh("lst", "dest")
        ex.assume(FLAT(d2) == cat(FLAT(old.dest), t))
        ex.assume(FLAT_DOS(d2) == cat(FLAT_DOS(old.dest), DOS(sv(t))))
        ex.hset(ex.hget(o, "destination"), "items", SymLst(d2))
        ex.hset(o, "ptr", end)
        ex.hset(o, "newline_count", CNT_NL(prefix(sv(old.source), end)))
        return None


class Copy(TrMethod):
    func = "Transcriber.copy"

    def args(self, ex, st):
        n = z3.Int("offset")
        ex.assume(z3.And(n >= 0, st.ptr + n <= z3.Length(st.source)))
        return [n]

    def target(self, st, args):
        return st.ptr + args[0]

    def text(self, st, args):
        return sl(st.source, st.ptr, st.ptr + args[0])


class CopyUntil(TrMethod):
    func = "Transcriber.copy_until"

    def args(self, ex, st):
        e = z3.Int("end")
        ex.assume(z3.And(st.ptr <= e, e <= z3.Length(st.source)))
        return [e]

    def target(self, st, args):
        return args[0]

    def text(self, st, args):
        return sl(st.source, st.ptr, args[0])


class CopyToEnd(TrMethod):
    func = "Transcriber.copy_to_end"

    def target(self, st, args):
        return z3.Length(st.source)

    def text(self, st, args):
        return suffix(st.source, st.ptr)


class Add(TrMethod):
    func = "Transcriber.add"

    def args(self, ex, st):
        return [z3.String("text")]

    def text(self, st, args):
        return args[0]


class Skip(Copy):
    func = "Transcriber.skip"

    def text(self, st, args):
        return ""


class SkipUntil(CopyUntil):
    func = "Transcriber.skip_until"

    def text(self, st, args):
        return ""


class MarkStart(TrMethod):
    callable_ = False
    func = "Transcriber.mark_section_start"
    mark = "SectionStart"

    def ret(self, ex, env, v):
        TrMethod.ret(self, ex, env, v)
        c = ex.class_attr(cls_of(ex), self.mark)
        ex.require(self.label() + ": one marker appended",
                   State(ex, env["o"]).dest == snoc(env["old"].dest,
                                                   Val.VTag(c.tag)))


class MarkEnd(MarkStart):
    func = "Transcriber.mark_section_end"
    mark = "SectionEnd"


class LineNumber(TrMethod):
    callable_ = False
    func = "Transcriber.line_number"

    def ret(self, ex, env, v):
        TrMethod.ret(self, ex, env, v)
        old = env["old"]
        ex.require("line_number: 1 + newlines before the pointer",
                   iv(v) == 1 + CNT_NL(prefix(old.source, old.ptr))
                   if ex.is_int(v) else False)


def dos_wanted(ex, st, enforce):
    if enforce is None:
        return sv(st.type) == "DOS"
    return sv(enforce) == "DOS"


class EditNewlines(TrMethod):
    func = "Transcriber.edit_newlines"

    def call(self, ex, args, kwargs):
        fn = ex.find_func(self.module, self.func)
        d = bound_args(ex, fn, args, kwargs)
        chunk, enf = [d[a.arg] for a in fn.node.args.args[1:]]
        chunk = ex.resolve_any(chunk)
        ex.require("call of edit_newlines: on text", ex.is_str(chunk))
        if not ex.is_str(chunk):
            ex.raise_("AttributeError")
        st = State(ex, args[0])
        return z3.If(dos_wanted(ex, st, enf), DOS(sv(chunk)), sv(chunk))

    def args(self, ex, st):
        k = ex.choose([True, True])
        return [z3.String("chunk"), None if k else z3.String("enforce")]

    def ret(self, ex, env, v):
        a = env["args"]
        ex.require("edit_newlines: rendered in the wanted style",
                   sv(v) == z3.If(dos_wanted(ex, env["old"], a[1]),
                                  DOS(a[0]), a[0])
                   if ex.is_str(v) else False)


class GetDestination(TrMethod):
    callable_ = False
    func = "Transcriber.get_destination"

    def _rendered(ex, st):
        """accumulated output == rendering of the pieces seen so far"""
        out = []
        dos = ex.spec_state.get("dos")
        for an, ag in acc_terms(ex, st):
            for pn, pg in list_prefixes(ex, st):
                out.append(("spec:%s=render(%s)" % (an, pn),
                            lambda s, ag=ag, pg=pg: None if ag(s) is None
                            else ag(s) == z3.If(dos, FLAT_DOS(pg(s)),
                                                FLAT(pg(s)))))
                out.append(("spec:%s=flat(%s)" % (an, pn),
                            lambda s, ag=ag, pg=pg: None if ag(s) is None
                            else ag(s) == FLAT(pg(s))))
        return out

    templates = [_rendered]

    def args(self, ex, st):
        k = ex.choose([True, True])
        e = None if k else z3.String("enforce")
        ex.spec_state["dos"] = dos_wanted(ex, st, e)
        return [e]

    def ret(self, ex, env, v):
        TrMethod.ret(self, ex, env, v)
        old = env["old"]
        ex.require("get_destination: concatenation of all pieces in order, "
                   "rendered in the wanted newline style",
                   sv(v) == z3.If(dos_wanted(ex, old, env["args"][0]),
                                  FLAT_DOS(old.dest), FLAT(old.dest))
                   if ex.is_str(v) else False)


class Init(Contract):
    module, func = TR, "Transcriber.__init__"

    def setup(self, ex):
        o = Obj(ex, cls_of(ex))
        s = z3.String("content")
        return [o, s], {}, {"o": o, "s": s}

    def ret(self, ex, env, v):
        st, s = State(ex, env["o"]), env["s"]
        L = "__init__"
        ex.require(L + ": starts at 0 with an empty output", z3.And(
            iv(st.ptr) == 0, iv(st.count) == 0, FLAT(st.dest) == "",
            st.dest == NIL))
        ex.require(L + ": newline type detected", sv(st.type) == style(s))
        ex.require(L + ": works on UNIX newlines",
                   sv(st.source) == z3.If(style(s) == "DOS", UNIX(s), s))


CONTRACTS = [FindNewlineType(), ForceNewlineType(), Init(), Copy(),
             CopyUntil(), CopyToEnd(), Add(), Skip(), SkipUntil(),
             MarkStart(), MarkEnd(), LineNumber(), EditNewlines(),
             GetDestination()]
