"""How format handlers see the Transcriber and OpenString: call rules derived
from the contracts proved in s_transcriber and s_strings.

A transcriber carries a ghost trace.  `subs` is the sequence of substitutions
made so far, each VSub(hidden, written): the piece of source that was skipped
and the text that was written in its place; everything else was copied
unchanged.  The lemmas at the end show that the trace determines the output:
replacing every written text by what it hides gives back the source prefix,
and the output is the source with exactly these substitutions."""
import z3

from pyvc import core
from pyvc.core import (Val, Lst, NIL, snoc, sv, iv, sl, suffix, prefix, cat,
                       Str, Int, Bool, CNT_NL)
from pyvc.contracts import Contract, Lemma, bound_args, lst_of
from pyvc.interp import (Obj, ListV, DictV, SymLst, SymAny, Unsupported,
                         UNBOUND)

TR = "openformats.transcribers"
OS = "openformats.strings"

# ---- spec views of an OpenString
TEXT = z3.Function("os_text", Val, Str)
KEY = z3.Function("os_key", Val, Str)
HASH = z3.Function("os_placeholder", Val, Str)
PLURAL = z3.Function("os_pluralized", Val, Bool)
ORDER = z3.Function("os_order", Val, Val)
CTX = z3.Function("os_context", Val, Val)

PAIRS = core.LHom("parse_pairs", Lst, NIL, lambda a, b: snoc(a, b),
                  lambda v: Val.VSub(TEXT(v), HASH(v)))
CPAIRS = core.LHom("compile_pairs", Lst, NIL, lambda a, b: snoc(a, b),
                   lambda v: Val.VSub(HASH(v), TEXT(v)))
NODES = [PAIRS, CPAIRS]


class Tr(object):
    """the client view of one transcriber object"""

    def __init__(self, ex, o):
        self.ex, self.o = ex, o

    def __getattr__(self, n):
        v = self.ex.hget(self.o, n)
        return v.term if isinstance(v, SymLst) else v

    def put(self, **kw):
        for k, v in kw.items():
            if k == "subs":
                v = SymLst(v)
            self.ex.hset(self.o, k, v)

    def flush(self):
        p = self.pend
        if p is not None:
            self.put(subs=snoc(self.subs, Val.VSub(z3.StringVal(""), sv(p))))
            self.put(pend=None)


def trc(ex, fields=None):
    c = ex.global_(ex.world.module(TR), "Transcriber")
    o = Obj(ex, c)
    return o


class NewTranscriber(Contract):
    module, class_ctor = TR, "Transcriber"
    func = "Transcriber"

    def call(self, ex, args, kwargs):
        src = ex.resolve_any(args[0] if args else kwargs.get("source"))
        if not ex.is_str(src):
            raise Unsupported("Transcriber of a non-text")
        o = trc(ex)
        ex.hset(o, "source", ex.fresh("str", "source"))
        ex.hset(o, "ptr", z3.IntVal(0))
        ex.hset(o, "subs", SymLst(NIL))
        ex.hset(o, "pend", None)
        ex.hset(o, "secptr", None)
        ex.hset(o, "newline_type", ex.fresh("str", "newline_type"))
        ex.spec_state["last_transcriber"] = o
        ex.spec_state.setdefault("transcribers", []).append(o)
        return o


class TrRule(Contract):
    module = TR

    def call(self, ex, args, kwargs):
        fn = ex.find_func(self.module, self.func)
        d = bound_args(ex, fn, args, kwargs)
        rest = [ex.resolve_any(d[a.arg]) for a in fn.node.args.args[1:]]
        return self.rule(ex, Tr(ex, args[0]), *rest)

    def inside(self, ex, t, end):
        where = ex.callstack[-1].split(".")[-1] if ex.callstack else ""
        ex.require("%s called by %s: forward and inside the source" % (
            self.func.split(".")[-1], where), z3.And(
                0 <= iv(t.ptr), iv(t.ptr) <= iv(end),
                iv(end) <= z3.Length(sv(t.source)))
            if ex.is_int(end) else False)


class CopyUntil(TrRule):
    func = "Transcriber.copy_until"

    def rule(self, ex, t, end):
        self.inside(ex, t, end)
        t.flush()
        t.put(ptr=end)


class Copy(CopyUntil):
    func = "Transcriber.copy"

    def rule(self, ex, t, n):
        CopyUntil.rule(self, ex, t, iv(t.ptr) + n)


class CopyToEnd(CopyUntil):
    func = "Transcriber.copy_to_end"

    def rule(self, ex, t):
        CopyUntil.rule(self, ex, t, z3.Length(sv(t.source)))


class SkipUntil(TrRule):
    func = "Transcriber.skip_until"

    def rule(self, ex, t, end):
        self.inside(ex, t, end)
        h = ex.spec_state.get("on_skip")
        if h:
            h(ex, t, sl(sv(t.source), t.ptr, end))
        if ex.spec_state.get("identity_subs") and t.pend is not None and \
                ex.prove_(sl(sv(t.source), t.ptr, end) == sv(t.pend),
                          slow=0)[0] == "proved":
            t.put(pend=None, ptr=end)      # replaced by itself
            return
        t.put(subs=snoc(t.subs, Val.VSub(
            sl(sv(t.source), t.ptr, end),
            sv(t.pend) if t.pend is not None else z3.StringVal(""))),
            pend=None, ptr=end)


class Skip(SkipUntil):
    func = "Transcriber.skip"

    def rule(self, ex, t, n):
        SkipUntil.rule(self, ex, t, iv(t.ptr) + n)


class Add(TrRule):
    func = "Transcriber.add"

    def rule(self, ex, t, text):
        ex.require("add: a text", ex.is_str(text))
        if not ex.is_str(text):
            raise Unsupported("add of a non-text")
        t.flush()
        t.put(pend=text)


class MarkStart(TrRule):
    func = "Transcriber.mark_section_start"

    def rule(self, ex, t):
        t.flush()
        t.put(secptr=t.ptr, secsubs=SymLst(t.subs), secend=None)


class MarkEnd(TrRule):
    func = "Transcriber.mark_section_end"

    def rule(self, ex, t):
        t.flush()
        t.put(secend=t.ptr)


class RemoveSection(TrRule):
    """what lies between the last start mark and its end mark disappears"""
    func = "Transcriber.remove_section"

    def rule(self, ex, t, place=0):
        if not (isinstance(place, int) and place == 0):
            raise Unsupported("remove_section(place)")
        ex.require("remove_section: a section is open and closed here",
                   t.secptr is not None and t.secend is not None)
        if t.secptr is None or t.secend is None:
            raise Unsupported("remove_section without section")
        ex.require("remove_section: the section ends at the pointer",
                   iv(t.secend) == iv(t.ptr))
        h = ex.spec_state.get("on_remove")
        if h:
            h(ex, t)
        # nothing written inside the section survives
        t.put(subs=snoc(t.secsubs, Val.VSub(
            sl(sv(t.source), t.secptr, t.secend), z3.StringVal(""))),
            secptr=None)


class LineNumber(TrRule):
    func = "Transcriber.line_number"

    def rule(self, ex, t):
        return 1 + CNT_NL(prefix(sv(t.source), t.ptr))


class GetDestination(TrRule):
    func = "Transcriber.get_destination"

    def rule(self, ex, t, enforce=None):
        t.flush()
        r = ex.fresh("str", "destination")
        ex.spec_state.setdefault("dests", []).append(
            (r, dict(ptr=t.ptr, subs=t.subs, source=t.source, o=t.o)))
        return r


def dest_of(ex, v):
    if isinstance(v, z3.ExprRef):
        for r, snap in ex.spec_state.get("dests", ()):
            if r.eq(v):
                return snap
    return None


# ---- OpenString
class NewString(Contract):
    module, class_ctor = OS, "OpenString"
    func = "OpenString"

    def call(self, ex, args, kwargs):
        fn = ex.find_func(OS, "OpenString.__init__")
        d = bound_args(ex, fn, [None] + list(args), kwargs)
        names = [a.arg for a in fn.node.args.args[1:]]
        key, text = [ex.resolve_any(d[n]) for n in names[:2]]
        kw = ex.content(d[fn.node.args.kwarg.arg]) \
            if fn.node.args.kwarg else {}
        r = ex.fresh("int", "openstring")
        v = Val.VRef(r)
        if ex.is_str(key):
            ex.assume(KEY(v) == sv(key))
        else:
            ex.require("OpenString: the key is a text", False)
        if ex.is_str(text):
            ex.assume(TEXT(v) == sv(text))
            if "pluralized" not in kw:
                ex.assume(z3.Not(PLURAL(v)))
        else:
            ex.spec_state.setdefault("forms", []).append((v, text))
        if "pluralized" in kw and ex.is_bool(kw["pluralized"]):
            ex.assume(PLURAL(v) == kw["pluralized"])
        ctx = kw.get("context", "")
        try:
            ex.assume(CTX(v) == ex.to_val(ctx))
            ex.assume(ORDER(v) == ex.to_val(kw.get("order")))
        except Unsupported:
            pass
        ex.assume(z3.Length(HASH(v)) == 35)
        h = ex.spec_state.get("on_string")
        if h:
            h(ex, v, key, text, kw)
        return SymAny(v)


def ref_attr(ex, o, name):
    v = o.term
    if name == "template_replacement":
        ex.assume(z3.Length(HASH(v)) == 35)
        return HASH(v)
    if name == "string":
        if ex.spec_state.get("plain_strings") or ex.entails(
                z3.Not(PLURAL(v))):
            return TEXT(v)
        raise Unsupported("text of a possibly plural string")
    if name == "key":
        return KEY(v)
    if name == "order":
        return SymAny(ORDER(v))
    if name == "context":
        return SymAny(CTX(v))
    if name == "pluralized":
        if ex.spec_state.get("plain_strings"):
            return False
        return PLURAL(v)
    return NotImplemented


RULES = [NewTranscriber(), Copy(), CopyUntil(), CopyToEnd(), Add(), Skip(),
         SkipUntil(), MarkStart(), MarkEnd(), RemoveSection(), LineNumber(),
         GetDestination(), NewString()]
for _c in RULES:
    _c.why = "derived from s_transcriber / s_strings by lemma.trace"


# ---- invariants
def subs_follow(ex, st):
    """the substitutions made so far are those of the strings seen so far"""
    out = []
    subs = [l for l in st.info.order if l[0] == "h" and l[2] == "subs"]
    lists = [l for l in st.info.order
             if l[0] == "h" and l[2] in ("items", "pre")]
    for a in subs:
        for F in NODES:
            for b in lists:
                out.append(("spec:%s=%s(%s)" % (a, F.name, b),
                            lambda s, a=a, b=b, F=F: None
                            if not isinstance(s.get(a), SymLst) else
                            s.get(a).term == F(
                                s.get(b) if b[2] == "pre" else lst_of(s, b))))
    return out


def mk_parse(mod, cls, **attrs):
    """contract of Handler.parse: everything is copied except the texts of
    the strings, each replaced by its placeholder, in stringset order"""

    class Parse(Contract):
        module, func = mod, cls + ".parse"
        templates = [subs_follow]
        allowed_exc = ("ParseError",)

        def setup(self, ex):
            ex.spec_state["ref_attr"] = ref_attr
            o = Obj(ex, ex.global_(ex.world.module(mod), cls))
            return [o, z3.String("content")], {}, {"o": o}

        def ret(self, ex, env, v):
            ok = isinstance(v, tuple) and len(v) == 2 and isinstance(
                v[1], ListV)
            snap = dest_of(ex, v[0]) if ok else None
            ex.require("parse: returns the transcribed template and a list",
                       snap is not None)
            if snap is None:
                return
            ex.require("parse: the whole source is transcribed",
                       iv(snap["ptr"]) == z3.Length(sv(snap["source"])))
            ex.require(
                "parse: the template is the source with exactly each "
                "string's text replaced by its placeholder, in order",
                snap["subs"] == PAIRS(ex.lst_term(v[1])))
            self.more(ex, env, v)

        def more(self, ex, env, v):
            pass
    for k, x in attrs.items():
        setattr(Parse, k, x)
    return Parse()


# ---- the trace determines the output
def _src(v):
    return z3.If(Val.is_VStr(v), Val.vs(v), Val.vh(v))


def _out(v):
    return z3.If(Val.is_VStr(v), Val.vs(v), Val.vw(v))


SRCOF = core.LHom("trace_source", Str, "", lambda a, b: z3.Concat(a, b), _src)
OUTOF = core.LHom("trace_output", Str, "", lambda a, b: z3.Concat(a, b), _out)


class _Subs(core.LHom):
    def instances(self, t, points):
        F, ax = self.f, []
        if t.decl().name() == "snoc":
            l, v = t.children()
            ax.append(F(t) == z3.If(Val.is_VSub(v), snoc(F(l), v), F(l)))
        elif t.decl().name() == "nil":
            ax.append(F(t) == NIL)
        return ax


SUBSOF = _Subs("trace_subs", Lst, NIL, None, None)


class TraceLemma(Lemma):
    """every rule keeps: SRCOF(trace)=source[:ptr], OUTOF(trace)+pending =
    output, SUBSOF(trace)=subs -- where output and ptr move as the contracts
    of s_transcriber say"""
    name = "lemma.trace"

    def vcs(self):
        tr = z3.Const("trace", Lst)
        src, out, pend, text = z3.Strings("src out pend text")
        p, e = z3.Ints("ptr end")
        has = z3.Bool("has_pending")
        I = [0 <= p, p <= z3.Length(src), SRCOF(tr) == prefix(src, p),
             out == z3.If(has, z3.Concat(OUTOF(tr), pend), OUTOF(tr))]
        E = z3.StringVal("")

        def inv(t2, p2, out2, pend2=None):
            o = OUTOF(t2) if pend2 is None else z3.Concat(OUTOF(t2), pend2)
            return z3.And(SRCOF(t2) == prefix(src, p2), out2 == o)
        yield ("initially", [], z3.And(SRCOF(NIL) == "", OUTOF(NIL) == "",
                                       SUBSOF(NIL) == NIL))
        rng = [p <= e, e <= z3.Length(src)]
        piece = sl(src, p, e)
        for h in (True, False):
            fl = snoc(tr, Val.VSub(E, pend)) if h else tr
            sb = snoc(SUBSOF(tr), Val.VSub(E, pend)) if h else SUBSOF(tr)
            hy = I + [has == h]
            n = "with" if h else "without"
            t2 = snoc(fl, Val.VStr(piece))
            yield ("copy %s pending text" % n, hy + rng,
                   z3.And(inv(t2, e, z3.Concat(out, piece)),
                          SUBSOF(t2) == sb))
            yield ("add %s pending text" % n, hy,
                   z3.And(inv(fl, p, z3.Concat(out, text), text),
                          SUBSOF(fl) == sb))
            t3 = snoc(tr, Val.VSub(piece, pend if h else E))
            yield ("skip %s pending text" % n, hy + rng,
                   z3.And(inv(t3, e, out),
                          SUBSOF(t3) == snoc(SUBSOF(tr), Val.VSub(
                              piece, pend if h else E))))
