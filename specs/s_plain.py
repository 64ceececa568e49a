"""Contracts: openformats/formats/plaintext.py and
openformats/utils/compilers.py"""
import z3

from pyvc import core
from pyvc.core import (Val, Lst, NIL, snoc, sv, iv, sl, suffix, prefix, cat,
                       substr, Str, Int)
from pyvc.contracts import (Contract, Lemma, acc_terms, list_prefixes,
                            as_int, lst_of)
from pyvc.interp import Obj, ListV, SymLst, SymAny, Unsupported, UNBOUND
from pyvc.models import LEADWS, TRAILWS, SplitV, joinsep, ws_char, ALLWS
from . import s_client
from .s_client import (TEXT, HASH, PLURAL, CPAIRS, dest_of, ref_attr,
                       subs_follow)

PT = "openformats.formats.plaintext"
CM = "openformats.utils.compilers"

NTH = z3.Function("nth_string", Int, Val)       # the strings as created


def line(v):
    return core.vstr(v)


def blank(x):
    return LEADWS(x) == z3.Length(x)


def stripped(x):
    return sl(x, LEADWS(x), TRAILWS(x))


class Fold(core.LHom):
    """F(nil)=unit, F(snoc(l, x)) = step(l, x)"""
    nl = None

    def __init__(self, name, sort, unit, step):
        core.LHom.__init__(self, name, sort, unit, None, None)
        self.step = step

    def instances(self, t, points):
        F = self.f
        if t.decl().name() == "snoc":
            return [F(t) == self.step(*t.children())]
        if t.decl().name() == "nil":
            return [F(t) == self.lift(self.unit)]
        if self.nl:      # lemma.separator-first
            return [z3.If(t == NIL, F(t) == "", F(t) == cat(
                sv(self.nl), suffix(F(t), len(self.nl))))]
        return [z3.Implies(t == NIL, F(t) == self.lift(self.unit))]


COUNT = Fold("text_lines", Int, 0, lambda l, v: COUNT(l) + z3.If(
    blank(line(v)), 0, 1))
STRINGS = Fold("strings_of_lines", Lst, NIL, lambda l, v: z3.If(
    blank(line(v)), STRINGS(l), snoc(STRINGS(l), NTH(COUNT(l)))))
TEXTS = Fold("texts_of_lines", Lst, NIL, lambda l, v: z3.If(
    blank(line(v)), TEXTS(l), snoc(TEXTS(l), Val.VStr(stripped(line(v))))))
TEXTSOF = core.LHom("texts_of_strings", Lst, NIL, lambda a, b: snoc(a, b),
                    lambda v: Val.VStr(TEXT(v)))


def mk_template(k, nl):
    F = Fold("template_of_lines_%d" % k, Str, "", lambda l, v: cat(
        F(l), sv(nl), z3.If(blank(line(v)), line(v), cat(
            prefix(line(v), LEADWS(line(v))), HASH(NTH(COUNT(l))),
            suffix(line(v), TRAILWS(line(v)))))))
    F.nl = nl
    return F


TMPL = {nl: mk_template(k, nl) for k, nl in enumerate(("", "\n", "\r\n"))}


class StripOnce(Lemma):
    """a text without its surrounding white space occurs in it once"""
    name = "lemma.strip-once"

    def vcs(self):
        s = z3.String("s")
        i, j, k = z3.Ints("i j k")
        n = z3.Length(s)
        r = sl(s, i, j)
        base = [0 <= i, i < j, j <= n, ALLWS(prefix(s, i)),
                ALLWS(suffix(s, j)), z3.Not(ws_char(substr(s, i, 1))),
                z3.Not(ws_char(substr(s, j - 1, 1)))]
        occ = [0 <= k, k + (j - i) <= n, substr(s, k, j - i) == r]
        w = sl(s, k, k + (j - i))

        def ch(x, at, x0):
            return substr(x, at, 1) == substr(s, x0 + at, 1)
        eqs = []
        for m, at in (("first", z3.IntVal(0)), ("last", j - i - 1)):
            parts = [ch(w, at, k), ch(r, at, i)]
            for q, e in enumerate(parts):
                yield ("%s character %d" % (m, q), base + occ[:2], e)
            eq = substr(s, k + at, 1) == substr(s, i + at, 1)
            yield ("same %s character" % m, occ[2:] + parts, eq)
            eqs.append(eq)
        one = substr(s, k, 1)
        yield ("before is white", base + occ[:2] + [k < i], ALLWS(one))
        yield ("not before", [ALLWS(one), eqs[0], base[5]],
               z3.BoolVal(False))
        last = substr(s, k + (j - i - 1), 1)
        yield ("after is white", base + occ[:2] + [k > i], ALLWS(last))
        yield ("not after", [ALLWS(last), eqs[1], base[6],
                             substr(s, i + (j - i - 1), 1) ==
                             substr(s, j - 1, 1)], z3.BoolVal(False))


class NlFirst(Lemma):
    """the template of at least one line starts with the separator"""
    name = "lemma.separator-first"

    def vcs(self):
        l, v = z3.Const("l", Lst), z3.Const("v", Val)
        for nl, F in TMPL.items():
            q = sv(nl)
            yield ("%r" % nl, [z3.Implies(z3.Not(l == NIL), z3.PrefixOf(
                q, F.f(l))), z3.Implies(l == NIL, F.f(l) == "")],
                z3.PrefixOf(q, F.f(snoc(l, v))))


def replace_stripped(ex, s, a, b):
    """x.replace(x.strip(), b), by lemma.strip-once"""
    s, a = sv(s), sv(a)
    f = z3.Function("replace_all", Str, Str, Str, Str)
    r = f(s, a, sv(b))
    ex.assume(z3.Implies(z3.And(z3.Not(blank(s)), a == stripped(s)),
                         r == cat(prefix(s, LEADWS(s)), sv(b),
                                  suffix(s, TRAILWS(s)))))
    ex.assume(z3.Implies(z3.Not(z3.Contains(s, a)), r == s))
    return r


class Parse(Contract):
    module, func = PT, "PlaintextHandler.parse"
    hom_points = 6

    def __init__(self):
        self.templates = [self.of_lines]

    def setup(self, ex):
        ex.spec_state["ref_attr"] = ref_attr
        ex.spec_state["str_replace"] = replace_stripped
        o = Obj(ex, ex.global_(ex.world.module(PT), "PlaintextHandler"))
        g = Obj(ex, "ghost")
        ex.hset(g, "made", z3.IntVal(0))
        ex.spec_state["ghost"] = g

        def on_string(ex, v, key, text, kw):
            k = ex.hget(g, "made")
            ex.assume(NTH(k) == v)
            ex.hset(g, "made", k + 1)
        ex.spec_state["on_string"] = on_string
        ex.spec_state["on_split"] = lambda ex, sp: \
            ex.spec_state.setdefault("splits", []).append(sp)
        return [o, z3.String("content")], {}, {"c": z3.String("content")}

    def of_lines(self, ex, st):
        out = []
        seps = [sp.sep for sp in ex.spec_state.get("splits", ())]
        pres = list_prefixes(ex, st)
        for pn, pg in pres:
            for an, ag in acc_terms(ex, st):
                for nl, F in TMPL.items():
                    if seps and nl not in seps:
                        continue
                    out.append(("spec:%s=%s(%s)" % (an, F.name, pn),
                                lambda s, ag=ag, F=F, pg=pg: None
                                if ag(s) is None else ag(s) == F(pg(s))))
            for loc in st.locs(lambda v: ex.is_int(v)):
                out.append(("spec:%s=count(%s)" % (loc, pn),
                            lambda s, l=loc, pg=pg:
                            as_int(s, l) == COUNT(pg(s))))
            for loc in st.info.order:
                if loc[0] == "h" and loc[2] == "items":
                    out.append(("spec:%s=strings(%s)" % (loc, pn),
                                lambda s, l=loc, pg=pg:
                                lst_of(s, l) == STRINGS(pg(s))))
                    out.append(("spec:%s=texts(%s)" % (loc, pn),
                                lambda s, l=loc, pg=pg:
                                TEXTSOF(lst_of(s, l)) == TEXTS(pg(s))))
        return out

    def ret(self, ex, env, v):
        c = sv(env["c"])
        ok = isinstance(v, tuple) and len(v) == 2 and ex.is_str(v[0]) and \
            isinstance(v[1], ListV)
        ex.require("parse: returns a text and a list", ok)
        if not ok:
            return
        t, S = sv(v[0]), ex.lst_term(v[1])
        cands = [("", snoc(NIL, Val.VStr(c)), z3.Not(z3.Contains(
            c, z3.StringVal("\n"))))]
        for sp in ex.spec_state.get("splits", ()):
            if sp.sep in TMPL and sp.most is None:
                cands.append((sp.sep, sp.lst, z3.And(
                    z3.Contains(c, z3.StringVal(sp.sep)),
                    joinsep(sp.sep)(sp.lst) == c)))

        def each(name, f):
            ex.require(name, z3.Or([z3.And(g, f(nl, L))
                                    for nl, L, g in cands]))
        each("parse: the template is the content with each line's text "
             "replaced by its string's placeholder",
             lambda nl, L: TMPL[nl](L) == cat(nl, t))
        each("parse: one string for each line that is not blank, in order",
             lambda nl, L: S == STRINGS(L))
        each("parse: each string is its line without surrounding space",
             lambda nl, L: TEXTSOF(S) == TEXTS(L))


# ---- compile
END = z3.Function("end_of_last_placeholder", Lst, Int)


class Compile(Contract):
    """the strings' placeholders stand in the template in the order of the
    strings (precondition); each is replaced by its string's text and nothing
    else changes"""
    module, func = CM, "OrderedCompilerMixin.compile"
    cls = (PT, "PlaintextHandler")
    hom_points = 6

    def __init__(self):
        self.templates = [subs_follow, self.at_end]

    def setup(self, ex):
        ex.spec_state["ref_attr"] = ref_attr
        ex.spec_state["plain_strings"] = True
        o = Obj(ex, ex.global_(ex.world.module(self.cls[0]), self.cls[1]))
        S = z3.Const("stringset", Lst)
        ss = ListV(ex, SymLst(S))
        t = z3.String("template")

        def elem(ex, term, pre, x):
            src = ex.spec_state["last_transcriber"]
            src = sv(ex.hget(src, "source"))
            k = z3.IndexOf(src, HASH(x), 0)
            ex.assume(z3.And(Val.is_VRef(x), z3.Length(HASH(x)) == 35,
                             z3.Contains(src, HASH(x)),
                             z3.Implies(pre == NIL, END(pre) == 0),
                             END(pre) <= k, 0 <= k,
                             k + 35 <= z3.Length(src),
                             END(snoc(pre, x)) == k + 35))
        ex.spec_state["list_elem"] = elem
        ex.spec_state["on_skip"] = self.on_skip
        return [o, t, ss], {}, {"o": o, "S": S}

    def at_end(self, ex, st):
        out = []
        for pn, pg in list_prefixes(ex, st):
            for loc in st.locs(lambda v: ex.is_int(v)):
                def c(s, l=loc, pg=pg):
                    p = pg(s)
                    return z3.If(p == NIL, as_int(s, l) == 0,
                                 as_int(s, l) == END(p))
                out.append(("spec:%s=end(%s)" % (loc, pn), c))
        return out

    def on_skip(self, ex, t, hidden):
        p = t.pend
        if p is None or not isinstance(p, z3.ExprRef) or \
                p.decl().name() != "os_text":
            raise Unsupported("compile writes something else than the text "
                              "of a string")
        ex.require("compile: what a string's text replaces is that string's "
                   "placeholder", hidden == HASH(p.arg(0)))

    def ret(self, ex, env, v):
        snap = dest_of(ex, v)
        ex.require("compile: returns the transcribed text", snap is not None)
        if snap is None:
            return
        ex.require("compile: the whole template is transcribed",
                   iv(snap["ptr"]) == z3.Length(sv(snap["source"])))
        ex.require("compile: exactly the placeholders are replaced, each by "
                   "its string's text, in order",
                   snap["subs"] == CPAIRS(env["S"]))


CONTRACTS = [Parse(), Compile()]
EXTRA = s_client.RULES
LEMMAS = [s_client.TraceLemma(), StripOnce(), NlFirst()]
