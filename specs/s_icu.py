"""Contracts: openformats/utils/icu.py  plural expressions"""
import z3

from pyvc import core
from pyvc.core import (Val, Lst, NIL, snoc, sv, iv, sl, suffix, prefix, substr,
                       cat, Str, Int, Bool)
from pyvc.contracts import (Contract, Lemma, bound_args, acc_terms,
                            list_prefixes, lst_of)
from pyvc.interp import (Obj, ListV, DictV, SymLst, SymMap, SymAny,
                         Unsupported, UNBOUND)
from pyvc.models import ALLWS, LstIter, ws_char, joinsep
from .s_handlers import RULES, RuleNumber, RuleString, rule_name

ICU = "openformats.utils.icu"
NUMERIC = {"=0": "zero", "=1": "one", "=2": "two"}

# a plural item "rule {text}": its rule and its braced text
RULE_OF = z3.Function("icu_rule_of", Str, Str)
BODY_OF = z3.Function("icu_body_of", Str, Str)
RULENO = z3.Function("icu_rule_number", Str, Int)


def icu(ex, cls):
    return Obj(ex, ex.global_(ex.world.module(ICU), cls))


def ruleno(s):
    """0..5 for every spelling of a rule, -1 for anything else"""
    e = z3.IntVal(-1)
    for k, n in RULES.items():
        e = z3.If(s == k, z3.IntVal(n), e)
    for k, r in NUMERIC.items():
        e = z3.If(s == k, z3.IntVal(RULES[r]), e)
    return e


def parts_of(s, rule, body):
    """s is `rule`, with white space around, followed by `body`, which starts
    at the first brace: for a given s there is at most one such pair"""
    i = z3.IndexOf(s, z3.StringVal("{"), 0)
    return z3.And(i >= 0, body == suffix(s, i), trimmed(prefix(s, i), rule))


def trimmed(s, t):
    """t is s without the white space around it"""
    from pyvc.models import LEADWS
    n = z3.Length(t)
    a = LEADWS(s)
    return z3.And(
        0 <= a, a <= z3.Length(s),
        z3.Implies(a == z3.Length(s), t == ""),
        z3.Implies(a < z3.Length(s), z3.And(
            n > 0, substr(s, a, n) == t, z3.Not(ws_char(substr(t, n - 1, 1))),
            ALLWS(suffix(s, a + n)))))


class Normalize(Contract):
    module, func = ICU, "normalize_plural_rule"

    def setup(self, ex):
        s = z3.String("rule")
        return [s], {}, {"s": s}

    def ret(self, ex, env, v):
        s, e = env["s"], env["s"]
        for k, r in NUMERIC.items():
            e = z3.If(s == k, z3.StringVal(r), e)
        ex.require("=0, =1, =2 are zero, one, two; any other rule is itself",
                   sv(v) == e if ex.is_str(v) else False)


class PluralContent(Contract):
    module, func = ICU, "ICUParser._parse_plural_content"

    def setup(self, ex):
        s = z3.String("item")
        ex.assume(z3.Contains(s, z3.StringVal("{")))
        return [s], {}, {"s": s}

    def ret(self, ex, env, v):
        ok = isinstance(v, tuple) and len(v) == 2 and all(
            ex.is_str(x) for x in v)
        ex.require("a rule and a braced text: what stands before the first "
                   "brace, trimmed, and the rest",
                   parts_of(env["s"], sv(v[0]), sv(v[1])) if ok else False)

    def call(self, ex, args, kwargs):
        s = sv(ex.resolve_any((list(args) + list(kwargs.values()))[-1]))
        ex.require("the text of a plural item has a brace",
                   z3.Contains(s, z3.StringVal("{")))
        return RULE_OF(s), BODY_OF(s)


# ---------------------------------------------------- pyparsing, assumed
class Gram(Obj):
    """a pyparsing expression: its sequence of atoms"""

    def __init__(self, ex, atoms):
        Obj.__init__(self, ex, "grammar")
        self.atoms = tuple(atoms)

    def binop(self, ex, op, other):
        if not isinstance(other, Gram):
            raise Unsupported("grammar + something else")
        return Gram(ex, self.atoms + other.atoms)

    def get_attr(self, ex, name):
        from pyvc.interp import BuiltinM
        return BuiltinM(name, self)

    def method(self, ex, name, args, kwargs):
        if name == "searchString" and len(args) == 1:
            a = self.atoms
            if len(a) != 2 or a[1] != ("nested",) or a[0][0] not in (
                    "oneOf", "word"):
                raise Unsupported("grammar of another shape")
            return Matches(ex, a[0], sv(ex.resolve_any(args[0])))
        raise Unsupported("grammar.%s" % name)


def pyparsing(ex, name, args, kwargs):
    if name == "pyparsing.oneOf":
        xs = ex.models.iter(ex, args[0])
        items = getattr(xs, "items", None)
        if items is None or not all(isinstance(x, str) for x in items):
            raise Unsupported("oneOf of unknown words")
        return Gram(ex, [("oneOf", tuple(items))])
    if name == "pyparsing.Word":
        return Gram(ex, [("word",)])
    if name == "pyparsing.Literal":
        return Gram(ex, [("literal", args[0])])
    if name == "pyparsing.nestedExpr":
        ig = kwargs.get("ignoreExpr")
        if tuple(args) != ("{", "}") or not isinstance(ig, Gram) or \
                ig.atoms != (("literal", "'"),):
            raise Unsupported("nestedExpr of another shape")
        return Gram(ex, [("nested",)])
    if name == "pyparsing.originalTextFor":
        return args[0]
    return NotImplemented


class Matches(Obj):
    """searchString: the texts of the items found"""

    def __init__(self, ex, rule, text):
        Obj.__init__(self, ex, "matches")
        self.rule, self.text = rule, text
        self.term = ex.fresh("lst", "matches")
        ex.trusted.add("pyparsing searchString(rule + nested braces): texts "
                       "inside the searched text, each a rule, white space "
                       "and a braced text")
        ex.spec_state.setdefault("matches", []).append(self)

    def facts(self, ex, x):
        r, b = RULE_OF(x), BODY_OF(x)
        i = z3.IndexOf(x, z3.StringVal("{"), 0)
        f = [z3.Contains(self.text, x), parts_of(x, r, b), i > 0,
             z3.PrefixOf(r, x), z3.Contains(self.text, r),
             z3.Length(r) > 0, z3.SuffixOf(z3.StringVal("}"), b),
             z3.Length(b) >= 2]
        if self.rule[0] == "oneOf":
            f.append(z3.Or([r == w for w in self.rule[1]]))
        return z3.And(f)

    def len(self, ex):
        n = core.LLEN(self.term)
        ex.assume(z3.And(n >= 0, (n == 0) == (self.term == NIL)))
        return n

    def make_iter(self, ex):
        return MatchIter(ex, self)

    def get_attr(self, ex, name):
        from pyvc.interp import BuiltinM
        return BuiltinM(name, self)

    def method(self, ex, name, args, kwargs):
        if name in ("asList", "as_list") and not args:
            return ListV(ex, SymLst(self.term, "str"))
        raise Unsupported("matches.%s" % name)


class Match(Obj):
    def __init__(self, ex, x):
        Obj.__init__(self, ex, "match")
        self.x = x

    def getitem(self, ex, i):
        if i == 0:
            return self.x
        raise Unsupported("match[%r]" % (i,))


class MatchIter(LstIter):
    def __init__(self, ex, m):
        LstIter.__init__(self, ex, m.term, "str")
        self.m = m

    def next(self, ex):
        ok, x = LstIter.next(self, ex)
        if not ok:
            return ok, x
        ex.assume(self.m.facts(ex, x))
        return True, Match(ex, x)


class _First(core.LHom):
    def instances(self, t, points):
        if t.decl().name() == "snoc":
            l, v = t.children()
            return [self.f(t) == z3.If(l == NIL, v, self.f(l))]
        return []


FIRST = _First("first_of", Val, Val.VNone, None, None)
FORMS = core.LHom("plural_forms", Lst, NIL, lambda a, b: snoc(a, b),
                  lambda v: Val.VSub(RULE_OF(core.vstr(v)),
                                     BODY_OF(core.vstr(v))))


def forms_follow(ex, st):
    """the list built so far is FORMS(matches read so far)"""
    out = []
    for loc in st.info.order:
        if loc[0] == "h" and loc[2] == "items":
            for pn, pg in list_prefixes(ex, st):
                out.append(("spec:%s=forms(%s)" % (loc, pn),
                            lambda s, l=loc, pg=pg:
                            lst_of(s, l) == FORMS(pg(s))))
                out.append(("spec:first %s of (%s)" % (loc, pn),
                            lambda s, l=loc, pg=pg: z3.Implies(
                                pg(s) != NIL, z3.And(
                                    FIRST(lst_of(s, l)) == FORMS.elem(
                                        FIRST(pg(s))),
                                    lst_of(s, l) != NIL,
                                    z3.And([z3.Implies(
                                        m.term == m.term, m.facts(
                                            ex, core.vstr(FIRST(pg(s)))))
                                        for m in ex.spec_state.get(
                                            "matches", ())[-1:]])))))
    return out


def list_index(ex, items, idx):
    if idx == 0 and isinstance(items, SymLst):
        if ex.branch(items.term == NIL):
            ex.raise_("IndexError")
        return ex.from_val(FIRST(items.term), items.elem)
    raise Unsupported("index into a list of plural forms")


def part_lemma(t, a, n, c, sub, found):
    return z3.Implies(
        z3.And(z3.Contains(substr(t, a, n), sub), 0 <= c, c <= a, n >= 0,
               a + n <= z3.Length(t)), found)


class PartLemma(Lemma):
    name = "lemma.contains-part"

    def vcs(self):
        u, v, x, y, z, w = z3.Strings("u v x y z w")
        # the text is u v x y z w, the part x y z contains y, u ends at c
        t = z3.Concat(u, v, x, y, z, w)
        c = z3.Length(u)
        yield ("contained in what follows", [],
               z3.Contains(z3.Concat(v, x, y, z, w), y))


class IcuParse(Contract):
    """ICUParser.parse: None or where the plural forms lie inside the value"""
    module, func = ICU, "ICUParser.parse"
    allowed_exc = ("ParseError",)
    templates = [forms_follow]
    hom_points = 6
    why = ""

    def setup(self, ex):
        o = icu(ex, "ICUParser")
        ex.hset(o, "allow_numeric_plural_values", ex.fresh("bool", "numeric"))
        key, value = z3.Strings("key value")
        # (pyparsing expands tabs; no JSON string has one)
        ex.assume(z3.Not(z3.Contains(value, z3.StringVal("\t"))))
        ex.spec_state["ext"] = pyparsing
        ex.spec_state["list_index"] = list_index
        ex.spec_state["on_find"] = self.on_find
        return [o, key, value], {}, dict(key=key, value=value)

    def ret(self, ex, env, v):
        if v is None:
            return
        ok = isinstance(v, Obj)
        ex.require("None or an ICU string", ok)
        if not ok:
            return
        value = env["value"]
        g = lambda n: ex.resolve_any(ex.getattr(v, n))
        ex.require("the key is the given key and the string is plural",
                   z3.And(sv(g("key")) == env["key"],
                          z3.BoolVal(g("pluralized") is True)))
        p, t = g("current_position"), g("string_to_replace")
        ok = ex.is_int(p) and ex.is_str(t)
        ex.require("a position and a text", ok)
        if not ok:
            return
        p, t = iv(p), sv(t)
        n = z3.Length(t)
        ex.require("the text lies at the position inside the value",
                   self.inside(value, p, t))
        m = ex.spec_state["matches"][-1:]
        info = ex.getattr(v, "string_info")
        ex.require("the forms are the rules and braced texts found, in "
                   "order, at least one", z3.And(
                       ex.lst_term(info) != NIL, z3.Or([
                           ex.lst_term(info) == FORMS(x.term)
                           for x in ex.spec_state["matches"]
                           if x.rule[0] == "oneOf"] + [z3.BoolVal(False)])))
        first = FIRST(ex.lst_term(info))
        ex.require("the text starts with the first rule",
                   substr(value, p, z3.Length(Val.vh(first))) ==
                   Val.vh(first))
        k = ex.models.rfind(ex, value, "rfind", ["}"])
        e = p + n
        for k2, _, _, end in ex.spec_state["rfinds"].values():
            if not end.eq(z3.Length(value)):
                ex.require("the text ends at the brace before the last",
                           z3.Implies(n > 0, z3.And(e == k2 + 1, end == k)))
                e = k2 + 1
        ex.require("after the text there is one closing brace",
                   z3.Implies(n > 0, z3.And(e <= k, z3.Not(z3.Contains(
                       sl(value, e, k), z3.StringVal("}"))))))

    @staticmethod
    def on_find(ex, t, sub, start, ok):
        """(lemma.contains-part) what a part of the text contains is found
        from any place before the part"""
        for m in ex.spec_state.get("matches", ()):
            x = m.text
            if x.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and x.arg(0).eq(t):
                ex.assume(part_lemma(t, x.arg(1), x.arg(2), start, sub, ok))

    @staticmethod
    def inside(value, p, t):
        return z3.And(0 <= p, p + z3.Length(t) <= z3.Length(value),
                      substr(value, p, z3.Length(t)) == t)

    def call(self, ex, args, kwargs):
        fn = ex.find_func(ICU, self.func)
        d = bound_args(ex, fn, args, kwargs)
        names = [a.arg for a in fn.node.args.args]
        key, value = [ex.resolve_any(d[n]) for n in names[1:3]]
        k = ex.choose([True, True, True])
        if k == 0:
            return None
        if k == 2:
            ex.raise_(ex.global_(ex.world.module("openformats.exceptions"),
                                 "ParseError"))
        o = icu(ex, "ICUString")
        c, s = ex.fresh("int", "current"), ex.fresh("str", "to_replace")
        ex.assume(self.inside(sv(value), c, s))
        ex.spec_state["icu"] = (c, s)
        for k, x in (("key", key), ("current_position", c),
                     ("string_to_replace", s), ("pluralized", True),
                     ("strings_by_rule", Obj(ex, "plural forms"))):
            ex.hset(o, k, x)
        return o


def parse_error(ex):
    ex.raise_(ex.global_(ex.world.module("openformats.exceptions"),
                         "ParseError"))


class Validate(Contract):
    """returns or raises ParseError"""
    module, func = ICU, "ICUParser._validate_plural_content_format"
    allowed_exc = ("ParseError",)

    def setup(self, ex):
        ex.spec_state["ext"] = pyparsing
        k, t = z3.Strings("key serialized")
        g = Gram(ex, [("word",), ("nested",)])
        return [icu(ex, "ICUParser"), k, t, Matches(ex, ("word",), t)], {}, {}

    def ret(self, ex, env, v):
        ex.require("gives nothing back", v is None)

    def call(self, ex, args, kwargs):
        if ex.choose([True, True]):
            parse_error(ex)


class Invalid(Contract):
    """always a ParseError"""
    module, func = ICU, "ICUParser._handle_invalid_plural_format"
    allowed_exc = ("ParseError",)

    def setup(self, ex):
        ex.spec_state["ext"] = pyparsing
        t, k, v = z3.Strings("serialized key value")
        g = Gram(ex, [("word",), ("nested",)])
        return [icu(ex, "ICUParser"), t, g, k, v], {}, {}

    def ret(self, ex, env, v):
        ex.require("never returns", False)

    def call(self, ex, args, kwargs):
        parse_error(ex)


# ------------------------------------------------- forms by rule number
Arr = z3.ArraySort(Int, Val)
Dom = z3.ArraySort(Int, Bool)


def unbraced(t):
    n = z3.Length(t)
    return z3.If(n >= 2, substr(t, 1, n - 2), z3.StringVal(""))


BYRULE = core.LHom(
    "forms_by_rule", Arr, None,
    lambda a, v: z3.Store(a, ruleno(Val.vh(v)), Val.VStr(
        unbraced(Val.vw(v)))), lambda v: v)
BYRULE.lift = lambda u: z3.K(Int, Val.VNone)
HASRULE = core.LHom(
    "rules_of_forms", Dom, None,
    lambda a, v: z3.Store(a, ruleno(Val.vh(v)), z3.BoolVal(True)),
    lambda v: v)
HASRULE.lift = lambda u: z3.K(Int, z3.BoolVal(False))
NUMSTYLE = core.LHom(
    "style_by_rule", Arr, None,
    lambda a, v: z3.Store(a, ruleno(Val.vh(v)), Val.VInt(z3.If(
        z3.Or([Val.vh(v) == k for k in NUMERIC]), 1, 0))), lambda v: v)
NUMSTYLE.lift = lambda u: z3.K(Int, Val.VNone)


def map_follows(fn):
    def tmpl(ex, st):
        out = []
        for loc in st.info.order:
            if loc[0] == "h" and loc[2] == "ditems":
                for pn, pg in list_prefixes(ex, st):
                    def inv(s, loc=loc, pg=pg):
                        m = s.get(loc)
                        if isinstance(m, dict):
                            if m:
                                return None
                            m = SymMap(z3.K(Int, z3.BoolVal(False)),
                                       z3.K(Int, Val.VNone))
                        if not isinstance(m, SymMap) or \
                                m.dom.sort().domain() != Int:
                            return None
                        return z3.And(m.dom == HASRULE(pg(s)),
                                      m.arr == fn(pg(s)))
                    out.append(("spec:%s=%s(%s)" % (loc, fn.name, pn), inv))
        return out
    return tmpl


class ByRule(Contract):
    """a dict property of ICUString, keyed by rule number"""
    module = ICU

    def __init__(self, name, fn, what):
        self.func, self.fn, self.what = "ICUString." + name, fn, what
        self.templates = [map_follows(fn)]

    def setup(self, ex):
        o = icu(ex, "ICUString")
        info = z3.Const("string_info", Lst)
        ex.hset(o, "string_info", ListV(ex, SymLst(info, "pair")))

        def elem(ex, t, pre, x):
            ex.assume(z3.And(Val.is_VSub(x), ruleno(Val.vh(x)) >= 0))
        ex.spec_state["list_elem"] = elem
        return [o], {}, dict(info=info)

    def ret(self, ex, env, v):
        if not isinstance(v, DictV):
            return ex.require("a dict", False)
        m = ex.content(v)
        if isinstance(m, dict):
            return ex.require("empty only without forms", z3.And(
                env["info"] == NIL, z3.BoolVal(not m)))
        ex.require(self.what, z3.And(m.dom == HASRULE(env["info"]),
                                     m.arr == self.fn(env["info"])))


TXT = z3.Function("form_text", Int, Str)
SYN = z3.Function("form_syntax", Int, Val)
USESYN = z3.Const("has_syntax", Bool)


def spelled(n):
    num = z3.And(USESYN, SYN(n) == Val.VInt(z3.IntVal(1)))
    return z3.If(num, z3.Concat(z3.StringVal("="), z3.IntToStr(n)),
                 rule_name(n))


WRITTEN = core.LHom(
    "written_forms", Lst, NIL, lambda a, b: snoc(a, b),
    lambda v: Val.VStr(z3.Concat(
        spelled(Val.vi(v)), z3.StringVal(" {"), TXT(Val.vi(v)),
        z3.StringVal("}"))))


class FormsDict(Obj):
    """plural forms: rule numbers in some order, each with its text"""

    def __init__(self, ex):
        Obj.__init__(self, ex, "forms")
        self.keys = z3.Const("rules", Lst)

    def get_attr(self, ex, name):
        from pyvc.interp import BuiltinM
        return BuiltinM(name, self)

    def method(self, ex, name, args, kwargs):
        if name == "items" and not args:
            return Items(ex, self.keys)
        raise Unsupported("dict.%s" % name)

    def getitem(self, ex, k):
        if not ex.is_int(k):
            raise Unsupported("rule is no number")
        return TXT(iv(k))

    def make_iter(self, ex):
        return LstIter(ex, self.keys, "int")


class Items(Obj):
    def __init__(self, ex, keys):
        Obj.__init__(self, ex, "items")
        self.keys = keys

    def make_iter(self, ex):
        return ItemsIter(ex, self.keys, "int")


class ItemsIter(LstIter):
    def next(self, ex):
        ok, k = LstIter.next(self, ex)
        return (ok, (k, TXT(k))) if ok else (ok, k)


class SyntaxDict(Obj):
    def get_attr(self, ex, name):
        from pyvc.interp import BuiltinM
        return BuiltinM(name, self)

    def method(self, ex, name, args, kwargs):
        if name == "get" and len(args) == 1 and ex.is_int(args[0]):
            return SymAny(SYN(iv(args[0])))
        raise Unsupported("dict.%s" % name)

    def truth(self, ex):
        return True


def written_follow(ex, st):
    out = []
    for loc in st.info.order:
        if loc[0] == "h" and loc[2] == "items":
            for pn, pg in list_prefixes(ex, st):
                out.append(("spec:%s=written(%s)" % (loc, pn),
                            lambda s, l=loc, pg=pg:
                            lst_of(s, l) == WRITTEN(pg(s))))
    return out


class Serialize(Contract):
    """every form as "rule {text}", in order, separated by a space"""
    module, func = ICU, "ICUCompiler.serialize_strings"
    templates = [written_follow]

    def setup(self, ex):
        d = FormsDict(ex)
        ex.spec_state["list_elem"] = lambda ex, t, pre, x: ex.assume(z3.And(
            Val.is_VInt(x), 0 <= Val.vi(x), Val.vi(x) <= 5))
        n = z3.Int("any_rule")
        if ex.choose([USESYN, z3.Not(USESYN)]) == 0:
            kw = {"syntax_by_rule": SyntaxDict(ex, "syntax")}
        else:
            kw = {}
        return [icu(ex, "ICUCompiler"), d], kw, dict(d=d)

    def ret(self, ex, env, v):
        ex.require("the forms as written, separated by a space",
                   sv(v) == joinsep(" ")(WRITTEN(env["d"].keys))
                   if ex.is_str(v) else False)


CONTRACTS = [Normalize(), PluralContent(), Validate(), Invalid(), IcuParse(),
             ByRule("strings_by_rule", BYRULE,
                    "every form's text without its braces under the number "
                    "of its rule, the last one of a rule counts"),
             ByRule("syntax_by_rule", NUMSTYLE,
                    "every rule's spelling under its number"),
             Serialize(),
             ]
EXTRA = [RuleNumber(), RuleString()]
LEMMAS = [PartLemma()]
