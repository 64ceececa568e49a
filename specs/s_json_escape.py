"""Contracts: openformats/utils/json.py  escape / unescape"""
import z3

from pyvc import core, regex
from pyvc.core import (sv, iv, sl, substr, suffix, prefix, cat, Str, Int,
                       Bool, JOIN, SufRec)
from pyvc.models import ASCII
from pyvc.contracts import (Contract, Lemma, mk_acc_is_fn_of_prefix,
                            acc_terms, positions)

M = "openformats.utils.json"
SIMPLE = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n",
          "r": "\r", "t": "\t"}
JESC = core.flatmap("json_escape", {
    '"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n",
    "\r": "\\r", "\t": "\\t"})
HEXCH = z3.Function("chr_of_hex4", Str, Str)       # "0041" -> "A"
PAIR = z3.Function("chr_of_pair", Str, Str, Str)   # surrogate pair
# classes of four hex digits; only these facts about them are used:
#   HIGH -> SURR, and hex digits are ASCII
HEX4 = z3.Function("is_hex4", Str, Bool)
SURR = z3.Function("is_surrogate_hex4", Str, Bool)
HIGH = z3.Function("is_high_hex4", Str, Bool)
LOW = z3.Function("is_low_hex4", Str, Bool)


def _py_dec(s):
    import json
    return json.loads('"%s"' % s, strict=False)


def pair(n, h, c, d, h2):
    """a surrogate pair: \\uHHHH\\uLLLL, two escapes, one character"""
    return z3.And(n >= 12, SURR(h), HIGH(h), c == "\\", d == "u", LOW(h2))


def _dec_body(n, at, rest):
    """what JSON says a string body means (one unit at the front)"""
    c, d = at(0), at(1)
    h, h2 = at(2, 4), at(8, 4)
    r = z3.Concat(c, rest(1))
    e = z3.StringVal("")
    for k, v in SIMPLE.items():
        e = z3.If(d == z3.StringVal(k), z3.Concat(z3.StringVal(v), rest(2)),
                  e)
    u = z3.If(pair(n, h, at(6, 1), at(7, 1), h2),
              z3.Concat(PAIR(h, h2), rest(12)),
              z3.Concat(HEXCH(h), rest(6)))
    e = z3.If(d == "u", u, e)
    return z3.If(n <= 0, z3.StringVal(""), z3.If(c == "\\", e, r))


def _valid_body(n, at, rest):
    c, d = at(0), at(1)
    h = at(2, 4)
    e = z3.BoolVal(False)
    for k in SIMPLE:
        e = z3.If(d == z3.StringVal(k), rest(2), e)
    # (the second conjunct follows from the first: a pair is two escapes)
    u = z3.And(n >= 6, HEX4(h), ASCII(h), rest(6),
               z3.Implies(pair(n, h, at(6, 1), at(7, 1), at(8, 4)),
                          rest(12)))
    e = z3.If(d == "u", u, e)
    return z3.If(n <= 0, True,
                 z3.If(c == "\\", z3.And(n >= 2, e),
                       z3.And(c != '"', rest(1))))


def _py_valid(s):
    import json
    try:
        v = json.loads('"%s"' % s, strict=False)
        return isinstance(v, str)
    except ValueError:
        return False


DEC = SufRec("json_decode", Str, _dec_body, _py_dec)
VALID = SufRec("json_valid", Bool, _valid_body, _py_valid)


class Escape(Contract):
    module, func = M, "escape"
    templates = [mk_acc_is_fn_of_prefix([JESC])]

    def setup(self, ex):
        s = z3.String("text")
        return [s], {}, {"s": s}

    def ret(self, ex, env, v):
        ex.require("escape: every character replaced by its JSON escape",
                   sv(v) == JESC(env["s"]) if ex.is_str(v) else False)

    def call(self, ex, args, kwargs):
        s = ex.resolve_any(args[0] if args else kwargs["string"])
        if not ex.is_str(s):
            ex.raise_("TypeError")
        return JESC(sv(s))


def _dec_inv(ex, st):
    """DEC(s) == acc + DEC(s[p:]) for every accumulator/position/string"""
    out = []
    for an, ag in acc_terms(ex, st):
        for pn, pg in positions(ex, st):
            for k, t in enumerate(st.consts_str()):
                out.append(("spec:dec s%d = %s + dec(s[%s:])" % (k, an, pn),
                            lambda s, ag=ag, pg=pg, t=t:
                            None if ag(s) is None else z3.And(
                                DEC(t) == z3.Concat(ag(s),
                                                    DEC(suffix(t, pg(s)))),
                                VALID(suffix(t, pg(s))))))
    return out


def _at(t):
    """(guard, k,n -> t[k:k+n]) written over the string t is a slice of, so
    that the facts below are stated about the function's own argument"""
    t = sv(t)
    if t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        s, a, n = t.children()
        L = z3.Length(s)
        return (z3.And(a >= 0, a <= L, n >= 0),
                z3.If(a + n <= L, n, L - a),
                lambda k, m: substr(s, a + k, m))
    return z3.BoolVal(True), z3.Length(t), lambda k, m: substr(t, k, m)


def _unicode_escape(ex, s):
    """bytes.decode('unicode-escape') on an ASCII \\uXXXX"""
    ex.trusted.add("bytes.decode('unicode-escape'): a well formed \\uXXXX "
                   "decodes to the one character with that code")
    s = sv(s)
    g, n, at = _at(s)
    h = at(2, 4)
    ok = z3.And(g, n == 6, at(0, 1) == "\\", at(1, 1) == "u", HEX4(h))
    r = ex.fresh("str", "uni")
    good = ex.fresh("bool", "uni_ok")
    ex.assume(z3.Implies(ok, z3.And(good, r == HEXCH(h),
                                    z3.Length(r) == 1)))
    ex.assume(z3.Implies(z3.And(ok, SURR(h)), z3.And(
        z3.StrToCode(r) >= 0xd800, z3.StrToCode(r) <= 0xdfff)))
    ex.assume(z3.Implies(z3.And(ok, z3.Not(SURR(h))), z3.Or(
        z3.StrToCode(r) < 0xd800, z3.StrToCode(r) > 0xdfff)))
    if not ex.branch(good):
        ex.raise_("UnicodeDecodeError")
    return r


def _json_loads(ex, s):
    ex.trusted.add("json.loads of a quoted surrogate escape: a pair yields "
                   "one character, a lone escape itself, an escape followed "
                   "by anything else an error or more than one character")
    s = sv(s)
    r = ex.fresh("str", "loaded")
    good = ex.fresh("bool", "loads_ok")
    parts, todo = [], [s]
    while todo:
        t = todo.pop()
        if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            todo.extend(reversed(t.children()))
        else:
            parts.append(t)
    q = z3.StringVal('"')
    if len(parts) == 3 and parts[0].eq(q) and parts[2].eq(q):
        g, n, at = _at(parts[1])
        h1, h2 = at(2, 4), at(8, 4)
        front = z3.And(g, n >= 6, at(0, 1) == "\\", at(1, 1) == "u", HEX4(h1),
                       SURR(h1))
        two = pair(n, h1, at(6, 1), at(7, 1), h2)
        ex.assume(z3.Implies(z3.And(front, n == 12, two), z3.And(
            good, r == PAIR(h1, h2), z3.Length(r) == 1)))
        ex.assume(z3.Implies(z3.And(front, n == 6), z3.And(
            good, r == HEXCH(h1), z3.Length(r) == 1)))
        ex.assume(z3.Implies(z3.And(front, n > 6, n <= 12, z3.Not(two)),
                             z3.Or(z3.Not(good), z3.Length(r) != 1)))
    if not ex.branch(good):
        ex.raise_("JSONDecodeError")
    return r


class Unescape(Contract):
    module, func = M, "unescape"
    templates = [_dec_inv]

    def setup(self, ex):
        s = z3.String("body")
        ex.assume(VALID(s))
        ex.spec_state["unicode_escape"] = _unicode_escape
        ex.spec_state["json_loads"] = _json_loads
        return [s], {}, {"s": s}

    def ret(self, ex, env, v):
        ex.require("unescape: the value JSON gives to the string body",
                   sv(v) == DEC(env["s"]) if ex.is_str(v) else False)


class RoundTrip(Lemma):
    """json_decode(json_escape(o)) == o, and json_escape(o) is valid: by
    induction on o, front character c"""
    name = "lemma.decode-of-escape"

    def vcs(self):
        c, o = z3.Strings("c o")
        one = z3.Length(c) == 1
        unf = JESC(z3.Concat(c, o)) == z3.Concat(JESC(c), JESC(o))
        ih = [VALID(JESC(o)), DEC(JESC(o)) == o]
        yield "base: valid", [], VALID(z3.StringVal(""))
        yield "base: decode", [], DEC(z3.StringVal("")) == ""
        cs = list('"\\\b\f\n\r\t')
        for ch in cs:
            e = JESC.py(ch)
            t = z3.Concat(z3.StringVal(e), JESC(o))
            yield "step %r: valid" % ch, ih, VALID(t)
            yield "step %r: decode" % ch, ih, DEC(t) == z3.Concat(
                z3.StringVal(ch), o)
        other = z3.And([one] + [c != z3.StringVal(x) for x in cs])
        t = z3.Concat(c, JESC(o))
        yield "step other: image", [other], JESC(c) == c
        yield "step other: valid", ih + [other], VALID(t)
        yield "step other: decode", ih + [other], DEC(t) == z3.Concat(c, o)


CONTRACTS = [Escape(), Unescape()]
LEMMAS = [RoundTrip()]
