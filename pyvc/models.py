"""Semantics of the Python builtins used by openformats on symbolic values.
Everything that is *assumed* rather than modelled exactly records itself in
ex.trusted."""
import ast
import json as _json
import string as _string

import z3

from . import core, regex
from .core import (Val, Lst, NIL, snoc, sv, iv, sl, substr, suffix, prefix,
                   cat, Str, Int, Bool, JOIN, LLEN, CNT_NL, pystr)
from .interp import (Unsupported, PyRaise, PathEnd, Obj, ListV, DictV, SetV,
                     SymLst, SymSet, SymMap, Restart, SymAny, Opaque, FuncV, BoundV,
                     BuiltinM, ClassV, ModV, ExtV, TypeV, SliceV, GenV, ExcV,
                     is_exc_name, UNBOUND)

# characters for which str.isspace() holds / which strip() and re's \s remove
WS = [c for c in map(chr, range(0x3100)) if c.isspace()]
RE_WS = WS
_DIG = "0123456789"


def char_in(c, chars):
    """c (length-1 term) is one of chars, as a formula over ranges"""
    codes = sorted(ord(x) for x in chars)
    rng, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        rng.append((codes[i], codes[j]))
        i = j + 1
    if isinstance(c, str):
        return c in chars
    k = z3.StrToCode(c)
    out = []
    for a, b in rng:
        out.append(k == a if a == b else z3.And(k >= a, k <= b))
    return z3.Or(*out)


ISSPACE = None


class _AllWs(object):
    pass


def _allws():
    global ISSPACE
    if ISSPACE is None:
        ISSPACE = core.Hom(
            "all_ws", Bool, True, lambda a, b: z3.And(a, b),
            lambda c: char_in(c, WS), lambda s: all(x in WS for x in s))
    return ISSPACE


ALLWS = _allws()
ALLWS.opaque = True


def ws_char(c):
    """is the length-1 text c white space"""
    return c in WS if isinstance(c, str) else ALLWS(c)


FOUND = z3.Function("found_at", Str, Str, Int, Int)


def count_fn(ch):
    """spec function: how often a character occurs"""
    if ch == "\n":
        return CNT_NL
    nm = "count_%x" % ord(ch)
    return core.Hom.registry.get(nm) or core.counter(nm, ch)


# number of leading white space characters / end of the last other character
LEADWS = z3.Function("lead_ws", Str, Int)
TRAILWS = z3.Function("trail_ws", Str, Int)


def lead_facts(ex, s):
    n, i = ex.length(s), ex.named(LEADWS(s), "lead")
    ex.assume(z3.And(0 <= i, i <= n))
    ex.assume(ALLWS(ex.sub(s, 0, i)))
    if ex.branch(i == n):
        return i
    ex.assume(z3.Not(ALLWS(ex.sub(s, i, i + 1))))
    return i


ASCII = core.Hom(
    "all_ascii", Bool, True, lambda a, b: z3.And(a, b),
    lambda c: z3.StrToCode(c) < 128,
    lambda s: all(ord(x) < 128 for x in s))
REPL = {}


def repl_fn(pat, r):
    """spec function for str.replace(pat, r) with concrete arguments"""
    if (pat, r) in REPL:
        return REPL[(pat, r)]
    name = "repl_%d" % len(REPL)
    if len(pat) == 1:
        f = core.flatmap(name, {pat: r})
    else:
        for k in range(1, len(pat)):
            if pat[:k] == pat[-k:]:
                f = front_replace(name, pat, r)
                break
        else:
            f = ReplScan(name, pat, r)
    REPL[(pat, r)] = f
    return f


def front_replace(name, pat, r):
    """str.replace of a pattern that can overlap itself: from the left"""
    def body(n, at, rest):
        m = len(pat)
        return z3.If(n <= 0, z3.StringVal(""), z3.If(
            z3.And(n >= m, at(0, m) == pat), z3.Concat(
                z3.StringVal(r), rest(m)), z3.Concat(at(0), rest(1))))
    return core.SufRec(name, Str, body, lambda s: s.replace(pat, r))


class ReplScan(core.Scan):
    """str.replace for a pattern without border: recursion on the last
    character,  F(p)=F(q)+r when p=q+pat, else F(p[:-1])+p[-1]"""

    def __init__(self, name, pat, r):
        self.pat, self.r = pat, r
        core.Scan.__init__(self, name, Str, "", None,
                           lambda s: s.replace(pat, r))

    def instances(self, t, points):
        F, ax, m = self.f, [], len(self.pat)
        if z3.is_string_value(t):
            return [F(t) == z3.StringVal(pystr(t).replace(self.pat, self.r))]
        ax.append(z3.Implies(z3.Length(t) == 0, F(t) == ""))
        ax.append(z3.Implies(z3.Not(z3.Contains(t, self.pat)), F(t) == t))
        n = z3.Length(t)
        if t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            s, a, ln = t.children()
            b = z3.simplify(a + ln)
            ok = z3.And(a >= 0, ln > 0, b <= z3.Length(s))
            prev, c = sl(s, a, b - 1), substr(s, z3.simplify(b - 1), 1)
            q = sl(s, a, z3.simplify(b - m))
        elif t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            parts = t.children()
            c, prev = parts[-1], cat(*parts[:-1])
            if z3.is_string_value(c) and len(pystr(c)) >= m:
                lit = pystr(c)
                if lit.endswith(self.pat):
                    ax.append(F(t) == z3.Concat(
                        F(cat(*(parts[:-1] + [lit[:-m]]))),
                        z3.StringVal(self.r)))
                else:
                    ax.append(F(t) == z3.Concat(
                        F(cat(*(parts[:-1] + [lit[:-1]]))),
                        z3.StringVal(lit[-1])))
                return ax
            ok = z3.Length(c) == 1
            q = prefix(t, n - m)
        else:
            return ax
        hit = z3.SuffixOf(z3.StringVal(self.pat), t)
        ax.append(z3.Implies(ok, F(t) == z3.If(
            hit, z3.Concat(F(q), z3.StringVal(self.r)),
            z3.Concat(F(prev), c))))
        return ax


# -------------------------------------------------------------- iterators
class IterV(Obj):
    def __init__(self, ex):
        Obj.__init__(self, ex, "iterator")

    def concrete(self, ex):
        return False

    def candidates(self, ex):
        return []


class ConcIter(IterV):
    def __init__(self, ex, items):
        IterV.__init__(self, ex)
        self.items = items
        ex.hset(self, "cpos", 0)

    def concrete(self, ex):
        return isinstance(ex.hget(self, "cpos"), int)

    def next(self, ex):
        i = ex.hget(self, "cpos")
        if not isinstance(i, int):
            raise Unsupported("iterator advanced in a symbolic loop")
        if i >= len(self.items):
            return False, None
        ex.hset(self, "cpos", i + 1)
        return True, self.items[i]


class StrIter(IterV):
    def __init__(self, ex, s):
        IterV.__init__(self, ex)
        self.s = s
        ex.hset(self, "pos", z3.IntVal(0))

    def next(self, ex):
        i = ex.hget(self, "pos")
        ex.assume(z3.And(0 <= i, i <= z3.Length(self.s)))
        if not ex.branch(i < z3.Length(self.s)):
            ex.assume(i == z3.Length(self.s))
            return False, None
        ex.hset(self, "pos", i + 1)
        return True, substr(self.s, i, 1)


class RangeIter(IterV):
    def __init__(self, ex, a, b, step=1):
        IterV.__init__(self, ex)
        self.a, self.b, self.step = a, b, step
        ex.hset(self, "pos", iv(a))

    def next(self, ex):
        i = ex.hget(self, "pos")
        st = self.step
        if st > 0:
            ex.assume(i >= iv(self.a))
            if not ex.branch(i < iv(self.b)):
                if st == 1:
                    ex.assume(z3.Or(i == iv(self.b), i == iv(self.a)))
                return False, None
        else:
            ex.assume(i <= iv(self.a))
            if not ex.branch(i > iv(self.b)):
                if st == -1:
                    ex.assume(z3.Or(i == iv(self.b), i == iv(self.a)))
                return False, None
        ex.hset(self, "pos", i + st)
        return True, i


class LstIter(IterV):
    """iterates a list of unknown length front to back; `pre` is what has
    been consumed so far"""

    def __init__(self, ex, term, elem="any"):
        IterV.__init__(self, ex)
        self.term, self.elem = term, elem
        ex.hset(self, "pre", NIL)

    def next(self, ex):
        pre = ex.hget(self, "pre")
        # (the body first: what it stores shapes what follows the loop)
        if not ex.branch(z3.Not(pre == self.term)):
            return False, None
        x = ex.fresh("val", "elem")
        nxt = snoc(pre, x)
        h = ex.spec_state.get("list_elem")
        if h:
            h(ex, self.term, pre, x)
        ex.hset(self, "pre", nxt)
        return True, ex.from_val(x, self.elem)


class RevIter(IterV):
    """iterates a list back to front; `rest` is what remains"""

    def __init__(self, ex, term, elem="any"):
        IterV.__init__(self, ex)
        self.term, self.elem = term, elem
        ex.hset(self, "rest", term)

    def next(self, ex):
        rest = ex.hget(self, "rest")
        if ex.branch(rest == NIL):
            return False, None
        r, x = ex.fresh("lst", "rest"), ex.fresh("val", "elem")
        ex.assume(rest == snoc(r, x))
        ex.hset(self, "rest", r)
        return True, ex.from_val(x, self.elem)


class EnumIter(IterV):
    def __init__(self, ex, it, start):
        IterV.__init__(self, ex)
        self.it = it
        ex.hset(self, "n", start)

    def concrete(self, ex):
        return self.it.concrete(ex)

    def next(self, ex):
        ok, x = self.it.next(ex)
        if not ok:
            return False, None
        n = ex.hget(self, "n")
        ex.hset(self, "n", n + 1)
        return True, (n, x)


class ZipIter(IterV):
    def __init__(self, ex, its):
        IterV.__init__(self, ex)
        self.its = its

    def concrete(self, ex):
        return any(i.concrete(ex) for i in self.its)

    def next(self, ex):
        out = []
        for i in self.its:
            ok, x = i.next(ex)
            if not ok:
                return False, None
            out.append(x)
        return True, tuple(out)


class CountIter(IterV):
    def __init__(self, ex, start=0):
        IterV.__init__(self, ex)
        ex.hset(self, "n", start)

    def next(self, ex):
        n = ex.hget(self, "n")
        ex.hset(self, "n", n + 1)
        return True, n


class MapIter(IterV):
    def __init__(self, ex, fn, it):
        IterV.__init__(self, ex)
        self.fn, self.it = fn, it

    def concrete(self, ex):
        return self.it.concrete(ex)

    def next(self, ex):
        ok, x = self.it.next(ex)
        if not ok:
            return False, None
        return True, ex.call(self.fn, [x])


# -------------------------------------------------------------- helpers
def norm_index(ex, i, n):
    """python slice bound -> clamped nonnegative term (n = length)"""
    if isinstance(i, int):
        if i >= 0:
            return z3.IntVal(i)
        return z3.If(n + i >= 0, n + i, z3.IntVal(0))
    if ex.entails(i >= 0):
        return i
    if ex.entails(i < 0):
        return z3.If(n + i >= 0, n + i, z3.IntVal(0))
    return z3.If(i >= 0, i, z3.If(n + i >= 0, n + i, z3.IntVal(0)))


def str_slice(ex, s, a, b, step):
    if step is not None and step != 1:
        if isinstance(s, str) and not isinstance(a, z3.ExprRef) and \
                not isinstance(b, z3.ExprRef):
            return s[a:b:step]
        raise Unsupported("string slice with step")
    if isinstance(s, str) and not isinstance(a, z3.ExprRef) and \
            not isinstance(b, z3.ExprRef):
        return s[a:b]
    s = sv(s)
    n = z3.Length(s)
    a = z3.IntVal(0) if a is None else norm_index(ex, ex.resolve_any(a), n)
    b = n if b is None else norm_index(ex, ex.resolve_any(b), n)
    return ex.sub(s, a, b)


def itos(ex, i):
    if isinstance(i, int):
        return str(i)
    return z3.If(i >= 0, z3.IntToStr(i),
                 z3.Concat(z3.StringVal("-"), z3.IntToStr(-i)))


class Models(object):
    # ---------------------------------------------------------- operators
    def binop(self, ex, op, a, b):
        a, b = ex.resolve_any(a), ex.resolve_any(b)
        for x in (a, b):
            h = getattr(x, "binop", None)
            if h:
                return h(ex, op, b if x is a else a)
        if isinstance(op, ast.Add):
            if ex.is_str(a) and ex.is_str(b):
                return self.concat(ex, [a, b])
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, ListV) and isinstance(b, ListV):
                x, y = ex.content(a), ex.content(b)
                if isinstance(y, tuple) and isinstance(x, tuple):
                    return ListV(ex, x + y)
                if isinstance(y, tuple):
                    t = ex.lst_term(a)
                    for v in y:
                        t = snoc(t, ex.to_val(v))
                    return ListV(ex, SymLst(t))
                raise Unsupported("list concatenation")
        if ex.is_int(a) and ex.is_int(b):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Mod) and isinstance(b, int) and b > 0:
                return a % b
            if isinstance(op, ast.FloorDiv) and isinstance(b, int) and b > 0:
                return a // b if isinstance(a, int) else a / b
        if ex.is_bool(a) and ex.is_int(b) and not isinstance(a, bool):
            return self.binop(ex, op, z3.If(a, 1, 0), b)
        if ex.is_bool(b) and ex.is_int(a) and not isinstance(b, bool):
            return self.binop(ex, op, a, z3.If(b, 1, 0))
        if isinstance(op, ast.Mod) and ex.is_str(a):
            return self.percent(ex, a, b)
        if isinstance(op, ast.Mult) and isinstance(a, str) and \
                isinstance(b, int):
            return a * b
        if isinstance(op, ast.Mult) and isinstance(b, str) and \
                isinstance(a, int):
            return a * b
        if isinstance(op, ast.Mult) and isinstance(a, ListV) and \
                isinstance(b, int) and isinstance(ex.content(a), tuple):
            return ListV(ex, ex.content(a) * b)
        if isinstance(op, ast.Mult) and isinstance(a, str) and ex.is_int(b):
            return self.repeat(ex, a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                        ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                        ast.Mod: lambda: a % b}[type(op)]()
            except KeyError:
                pass
        if a is None or b is None:
            ex.raise_("TypeError")
        if isinstance(a, SetV) and isinstance(b, SetV):
            x, y = ex.content(a), ex.content(b)
            if isinstance(x, tuple) and isinstance(y, tuple) and all(
                    isinstance(v, (str, int, type(None))) for v in x + y):
                if isinstance(op, ast.Sub):
                    return SetV(ex, tuple(v for v in x if v not in y))
                if isinstance(op, ast.BitAnd):
                    return SetV(ex, tuple(v for v in x if v in y))
                if isinstance(op, ast.BitOr):
                    return SetV(ex, x + tuple(v for v in y if v not in x))
        if (ex.is_str(a) and ex.is_int(b)) or (ex.is_int(a) and ex.is_str(b)):
            if isinstance(op, (ast.Add, ast.Sub)):
                ex.raise_("TypeError")
        raise Unsupported("operator %s on %s, %s" % (
            type(op).__name__, ex.kind(a), ex.kind(b)))

    def repeat(self, ex, c, n):
        r = ex.fresh("str", "rep")
        ex.assume(z3.Length(r) == z3.If(n > 0, n * len(c), 0))
        ex.assume(z3.InRe(r, z3.Star(z3.Re(c))))
        return r

    def concat(self, ex, parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        # merge adjacent concrete
        out = []
        for p in parts:
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        return cat(*out)

    def to_str(self, ex, v):
        v = ex.resolve_any(v)
        if ex.is_str(v):
            return v
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        if ex.is_int(v):
            return itos(ex, v)
        if ex.is_bool(v):
            return z3.If(v, z3.StringVal("True"), z3.StringVal("False"))
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            m = ex.class_attr(v.cls, "__str__")
            if m is not None:
                return ex.call_func(m, [v], {})
        return ex.fresh("str", "tostr")

    def percent(self, ex, fmt, args):
        if not isinstance(fmt, str):
            raise Unsupported("symbolic % format")
        a = list(args) if isinstance(args, tuple) else [args]
        out, i = [], 0
        while i < len(fmt):
            if fmt[i] == "%":
                nxt = fmt[i + 1:i + 2]
                if nxt == "%":
                    out.append("%")
                    i += 2
                    continue
                if nxt in ("s", "d"):
                    if not a:
                        ex.raise_("TypeError")
                    out.append(self.to_str(ex, a.pop(0)))
                    i += 2
                    continue
                return ex.fresh("str", "pct")
            out.append(fmt[i])
            i += 1
        return self.concat(ex, out)

    def format(self, ex, fmt, args, kwargs):
        if not isinstance(fmt, str):
            # a template that is itself data
            raise Unsupported("symbolic format string")
        out, auto = [], 0
        for lit, field, spec, conv in _string.Formatter().parse(fmt):
            out.append(lit)
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            else:
                import re as _re
                m = _re.match(r"^(\w+)((?:\.\w+|\[\w+\])*)$", field)
                if not m:
                    raise Unsupported("format field %r" % field)
                base = m.group(1)
                if base.isdigit():
                    if int(base) >= len(args):
                        ex.raise_("IndexError")
                    v = args[int(base)]
                else:
                    if base not in kwargs:
                        ex.raise_("KeyError", base)
                    v = kwargs[base]
                for t in _re.findall(r"\.\w+|\[\w+\]", m.group(2)):
                    if t[0] == ".":
                        v = ex.getattr(v, t[1:])
                    else:
                        k = t[1:-1]
                        v = ex.getitem(v, int(k) if k.isdigit() else k)
            if spec or (conv and conv != "s"):
                cv = ex.resolve_any(v)
                if isinstance(cv, (int, str, float)) and not conv:
                    out.append(format(cv, spec))
                else:
                    out.append(ex.fresh("str", "fmt"))
            else:
                out.append(self.to_str(ex, v))
        return self.concat(ex, out)

    def contains(self, ex, c, x):
        c = ex.resolve_any(c)
        if ex.is_str(c):
            x = ex.resolve_any(x)
            if not ex.is_str(x):
                ex.raise_("TypeError")
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(c, str) and ex.entails(z3.Length(x) == 1):
                return char_in(x, c) if c else False
            return z3.Contains(sv(c), sv(x))
        if isinstance(c, tuple):
            return ex.disj([ex.eq(x, y) for y in c])
        if isinstance(c, (ListV, SetV, DictV)):
            items = ex.content(c)
            if isinstance(items, tuple):
                return ex.disj([ex.eq(x, y) for y in items])
            if isinstance(items, dict):
                return ex.disj([ex.eq(x, y) for y in items])
            if isinstance(items, SymSet):
                return z3.Select(items.arr, ex.to_val(x))
            if isinstance(items, SymMap):
                return z3.Select(items.dom, self.map_key(ex, items, x))
            if isinstance(items, SymLst):
                h = ex.spec_state.get("list_contains")
                if h:
                    return h(ex, items, x)
                f = z3.Function("lst_contains", Lst, Val, Bool)
                return f(items.term, ex.to_val(x))
        if isinstance(c, GenV):
            return self.contains(ex, c.lst, x)
        h = getattr(c, "contains", None)
        if h:
            return h(ex, x)
        if isinstance(c, Obj) and isinstance(c.cls, ClassV):
            m = ex.class_attr(c.cls, "__contains__")
            if m is not None:
                return ex.truth(ex.call_func(m, [c, x], {}))
        if c is None:
            ex.raise_("TypeError")
        raise Unsupported("membership in %s" % type(c).__name__)

    # ---------------------------------------------------------- items
    def getitem(self, ex, o, idx):
        o = ex.resolve_any(o)
        if isinstance(idx, SymAny):
            idx = ex.resolve_any(idx)
        if ex.is_str(o):
            if isinstance(idx, SliceV):
                return str_slice(ex, o, ex.resolve_any(idx.a),
                                 ex.resolve_any(idx.b), idx.c)
            if isinstance(o, str) and isinstance(idx, int):
                try:
                    return o[idx]
                except IndexError:
                    ex.raise_("IndexError")
            if not ex.is_int(idx):
                ex.raise_("TypeError")
            s = sv(o)
            n = z3.Length(s)
            i = iv(idx)
            if isinstance(idx, int) and idx < 0:
                if not ex.branch(n >= -idx):
                    ex.raise_("IndexError")
                return substr(s, n + idx, 1)
            if not ex.entails(i >= 0):
                if ex.branch(i < 0):
                    if not ex.branch(n + i >= 0):
                        ex.raise_("IndexError")
                    return substr(s, n + i, 1)
            if not ex.branch(i < n):
                ex.raise_("IndexError")
            return substr(s, i, 1)
        if isinstance(o, tuple):
            if isinstance(idx, SliceV):
                return o[idx.a:idx.b:idx.c]
            if isinstance(idx, int):
                try:
                    return o[idx]
                except IndexError:
                    ex.raise_("IndexError")
            raise Unsupported("symbolic tuple index")
        if isinstance(o, SplitV) and o.intact(ex):
            if isinstance(idx, int) and 0 <= idx < 8:
                r = o.piece(ex, idx)
                if r is None:
                    ex.raise_("IndexError")
                return r
            if isinstance(idx, z3.ExprRef) and o.most is None:
                if not ex.entails(idx >= 0):
                    raise Unsupported("possibly negative index")
                if not ex.branch(idx < o.n):
                    ex.raise_("IndexError")
                return o.sym_piece(ex, idx)
            if isinstance(idx, SliceV) and o.most is None and idx.c is None:
                bs = [ex.resolve_any(b) for b in (idx.a, idx.b)]
                if all(b is None or (isinstance(b, int) and b >= 0) or (
                        isinstance(b, z3.ExprRef) and ex.entails(b >= 0))
                        for b in bs):
                    return SplitSlice(o, *bs)
        if isinstance(o, ListV):
            items = ex.content(o)
            if isinstance(idx, SliceV):
                if isinstance(items, tuple) and all(
                        x is None or isinstance(x, int)
                        for x in (idx.a, idx.b, idx.c)):
                    return ListV(ex, items[idx.a:idx.b:idx.c])
                if idx.a is None and idx.b is None and idx.c == -1:
                    return RevLst(ex, items.term, items.elem)
                raise Unsupported("slice of a symbolic list")
            if isinstance(items, tuple) and isinstance(idx, int):
                try:
                    return items[idx]
                except IndexError:
                    ex.raise_("IndexError")
            if isinstance(items, SymLst) and isinstance(idx, int) and \
                    idx == -1:
                t = items.term
                if ex.branch(t == NIL):
                    ex.raise_("IndexError")
                p, x = ex.fresh("lst", "init"), ex.fresh("val", "last")
                ex.assume(t == snoc(p, x))
                return ex.from_val(x, items.elem)
            h = ex.spec_state.get("list_index")
            if h:
                return h(ex, items, idx)
            if isinstance(items, SymLst) and ex.is_int(idx):
                n, i = core.LLEN(items.term), iv(idx)
                ex.assume(n >= 0)
                if not ex.branch(z3.And(i < n, i >= -n)):
                    ex.raise_("IndexError")
                return ex.from_val(core.LNTH(items.term, z3.If(
                    i >= 0, i, i + n)), items.elem)
            raise Unsupported("index into a symbolic list")
        if isinstance(o, DictV):
            items = ex.content(o)
            if isinstance(items, dict):
                if isinstance(idx, (str, int, type(None), tuple)) and \
                        self.hashable_conc(idx):
                    if all(self.hashable_conc(k) for k in items):
                        if idx in items:
                            return items[idx]
                        ex.raise_("KeyError", idx)
                conds, vals = [], []
                for k, v in items.items():
                    conds.append(ex.eq(k, idx))
                    vals.append(v)
                for k, c in enumerate(conds):
                    if ex.branch(c):
                        return vals[k]
                ex.raise_("KeyError", idx)
            if isinstance(items, SymMap):
                k = self.map_key(ex, items, idx)
                if not ex.branch(z3.Select(items.dom, k)):
                    ex.raise_("KeyError", idx)
                return ex.from_val(z3.Select(items.arr, k), items.elem)
        h = getattr(o, "getitem", None)
        if h:
            return h(ex, idx)
        if isinstance(o, Obj) and isinstance(o.cls, ClassV):
            m = ex.class_attr(o.cls, "__getitem__")
            if m is not None:
                return ex.call_func(m, [o, idx], {})
        if o is None or ex.is_int(o) or ex.is_bool(o):
            ex.raise_("TypeError")
        if isinstance(o, ExtV) or isinstance(o, TypeV):
            return o     # typing subscripts
        raise Unsupported("subscript of %s" % type(o).__name__)

    def hashable_conc(self, k):
        if isinstance(k, tuple):
            return all(self.hashable_conc(x) for x in k)
        return isinstance(k, (str, int, type(None), bool))

    def setitem(self, ex, o, idx, v):
        if isinstance(o, DictV):
            items = ex.content(o)
            idx = ex.resolve_any(idx)
            if isinstance(items, dict):
                if self.hashable_conc(idx) and all(
                        self.hashable_conc(k) for k in items):
                    new = dict(items)
                    new[idx] = v
                    ex.hset(o, "ditems", new)
                    return
                if isinstance(idx, Obj):
                    for k in items:
                        if k is idx:
                            new = dict(items)
                            new[idx] = v
                            ex.hset(o, "ditems", new)
                            return
                if not ex.is_str(idx) and not (ex.is_int(idx) and all(
                        ex.is_int(k) for k in items)):
                    new = {}
                    for k, x in items.items():
                        if ex.branch(ex.eq(k, idx)):
                            nn = dict(items)
                            nn[k] = v
                            ex.hset(o, "ditems", nn)
                            return
                    new = dict(items)
                    new[HKey(idx)] = v
                    raise Unsupported("dict with symbolic non-str key")
                items = self.to_symmap(ex, items, ex.is_int(idx))
            loc = ("h", o.oid, "ditems")
            if ex.is_int(idx) and items.dom.sort().domain() == Str and \
                    loc not in ex.int_maps:
                ex.int_maps.add(loc)
                raise Restart()
            k = self.map_key(ex, items, idx)
            ex.hset(o, "ditems", SymMap(
                z3.Store(items.dom, k, z3.BoolVal(True)),
                z3.Store(items.arr, k, ex.to_val(v)), "any"))
            return
        if isinstance(o, ListV):
            items = ex.content(o)
            if isinstance(items, tuple) and isinstance(idx, int):
                new = list(items)
                try:
                    new[idx] = v
                except IndexError:
                    ex.raise_("IndexError")
                ex.hset(o, "items", tuple(new))
                return
            h = ex.spec_state.get("list_setitem")
            if h:
                return h(ex, o, idx, v)
        h = getattr(o, "setitem", None)
        if h:
            return h(ex, idx, v)
        raise Unsupported("item assignment on %s" % type(o).__name__)

    def to_symmap(self, ex, items, ints=False):
        ks = core.Int if ints else Str
        m = SymMap(z3.K(ks, z3.BoolVal(False)), z3.K(ks, Val.VNone))
        for k, v in items.items():
            k = self.map_key(ex, m, k)
            m = SymMap(z3.Store(m.dom, k, z3.BoolVal(True)),
                       z3.Store(m.arr, k, ex.to_val(v)))
        return m

    def map_key(self, ex, m, k):
        """keys of a symbolic dict are all texts or all integers"""
        k = ex.resolve_any(k)
        if m.dom.sort().domain() == Str:
            if ex.is_str(k):
                return sv(k)
        elif ex.is_int(k):
            return iv(k)
        raise Unsupported("dict with keys of several kinds")

    def delitem(self, ex, o, k):
        if isinstance(o, DictV):
            items = ex.content(o)
            if isinstance(items, dict) and self.hashable_conc(k):
                if k not in items:
                    ex.raise_("KeyError", k)
                new = dict(items)
                del new[k]
                ex.hset(o, "ditems", new)
                return
            if isinstance(items, SymMap):
                if not ex.branch(z3.Select(items.dom, sv(k))):
                    ex.raise_("KeyError", k)
                ex.hset(o, "ditems", SymMap(
                    z3.Store(items.dom, sv(k), z3.BoolVal(False)), items.arr,
                    items.elem))
                return
        h = getattr(o, "delitem", None)
        if h:
            return h(ex, k)
        raise Unsupported("del item")

    # ---------------------------------------------------------- sets
    def make_set(self, ex, items):
        s = SetV(ex, ())
        for x in items:
            self.set_add(ex, s, x)
        return s

    def set_add(self, ex, s, x):
        items = ex.content(s)
        if isinstance(items, tuple):
            if self.hashable_conc(x) and all(self.hashable_conc(y)
                                             for y in items):
                if x not in items:
                    ex.hset(s, "sitems", items + (x,))
                return
            if len(items) < 12 and not ex.loop_stack:
                # duplicates are harmless for membership
                ex.hset(s, "sitems", items + (x,))
                return
            arr = z3.K(Val, z3.BoolVal(False))
            for y in items:
                arr = z3.Store(arr, ex.to_val(y), z3.BoolVal(True))
            items = SymSet(arr)
        ex.hset(s, "sitems", SymSet(z3.Store(items.arr, ex.to_val(x),
                                             z3.BoolVal(True))))

    # ---------------------------------------------------------- iteration
    def iter(self, ex, v):
        v = ex.resolve_any(v)
        if isinstance(v, IterV):
            return v
        if isinstance(v, str):
            return ConcIter(ex, tuple(v))
        if ex.is_str(v):
            return StrIter(ex, v)
        if isinstance(v, tuple):
            return ConcIter(ex, v)
        if isinstance(v, GenV):
            if v.pos is None:
                v.pos = self.iter(ex, v.lst)
            return v.pos
        if isinstance(v, SplitV) and v.most is None and v.intact(ex):
            return SplitIter(ex, v)
        if isinstance(v, (ListV, SetV)):
            items = ex.content(v)
            if isinstance(items, tuple):
                return ConcIter(ex, items)
            if isinstance(items, SymLst):
                return LstIter(ex, items.term, items.elem)
            raise Unsupported("iteration over a symbolic set")
        if isinstance(v, RevLst):
            return RevIter(ex, v.term, v.elem)
        if isinstance(v, DictV):
            items = ex.content(v)
            if isinstance(items, dict):
                return ConcIter(ex, tuple(items))
            raise Unsupported("iteration over a symbolic dict")
        h = getattr(v, "make_iter", None)
        if h:
            return h(ex)
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            c = ex.contracts.get(v.cls.qual + ".__iter__")
            if c is not None:
                ex.used_contracts.add(v.cls.qual + ".__iter__")
                return c.call(ex, [v], {})
            m = ex.class_attr(v.cls, "__iter__")
            if m is not None:
                return self.iter(ex, ex.call_func(m, [v], {}))
        if v is None or ex.is_int(v) or ex.is_bool(v):
            ex.raise_("TypeError")
        raise Unsupported("iteration over %s" % type(v).__name__)

    # ---------------------------------------------------------- lists
    def list_method(self, ex, lv, name, args, kwargs):
        items = ex.content(lv)
        if name == "append":
            h = ex.spec_state.get("append_tuple")
            if h and isinstance(args[0], tuple):
                h(ex, lv, args[0])
            if isinstance(items, tuple):
                ex.hset(lv, "items", items + (args[0],))
            else:
                el = items.elem
                if el != "any":
                    e2 = ex.lst_elem((args[0],))
                    el = e2 if el in ("empty", e2) else "any"
                ex.hset(lv, "items", SymLst(snoc(items.term,
                                                 ex.to_val(args[0])), el))
            return None
        if name == "extend":
            src = args[0]
            h = getattr(src, "extend_into", None)
            if h:
                return h(ex, lv)
            if isinstance(src, (ListV, tuple, GenV, str)):
                try:
                    xs = ex.concrete_items(src)
                except Unsupported:
                    raise Unsupported("extend with a symbolic sequence")
                for x in xs:
                    self.list_method(ex, lv, "append", [x], {})
                return None
            raise Unsupported("extend")
        if name == "index" and isinstance(items, tuple) and len(args) == 1:
            for k, x in enumerate(items):
                if ex.branch(ex.eq(x, args[0])):
                    return k
            ex.raise_("ValueError")
        if name == "pop":
            if isinstance(items, tuple):
                i = args[0] if args else -1
                if not isinstance(i, int):
                    raise Unsupported("pop index")
                if not items:
                    ex.raise_("IndexError")
                new = list(items)
                try:
                    v = new.pop(i)
                except IndexError:
                    ex.raise_("IndexError")
                ex.hset(lv, "items", tuple(new))
                return v
            if not args or args[0] == -1:
                t = items.term
                if ex.branch(t == NIL):
                    ex.raise_("IndexError")
                p, x = ex.fresh("lst", "init"), ex.fresh("val", "last")
                ex.assume(t == snoc(p, x))
                ex.hset(lv, "items", SymLst(p, items.elem))
                return ex.from_val(x, items.elem)
            raise Unsupported("pop from symbolic list")
        if name == "insert" and isinstance(items, tuple) and \
                isinstance(args[0], int):
            new = list(items)
            new.insert(args[0], args[1])
            ex.hset(lv, "items", tuple(new))
            return None
        if name == "reverse" and isinstance(items, tuple):
            ex.hset(lv, "items", tuple(reversed(items)))
            return None
        if name == "copy" and isinstance(items, (tuple, SymLst)):
            return ListV(ex, items)
        if name == "clear":
            ex.hset(lv, "items", ())
            return None
        h = ex.spec_state.get("list_method")
        if h:
            return h(ex, lv, name, args, kwargs)
        raise Unsupported("list.%s" % name)

    # ---------------------------------------------------------- methods
    def method(self, ex, o, name, args, kwargs):
        o = ex.resolve_any(o)
        if ex.is_str(o):
            return self.str_method(ex, o, name, [ex.resolve_any(a)
                                                 for a in args], kwargs)
        if isinstance(o, TypeV):
            if o.name == "str" and name == "join":
                return self.str_method(ex, args[0], "join", args[1:], {})
            if o.name == "dict" and name == "fromkeys":
                d = DictV(ex, {})
                for k in ex.concrete_items(args[0]):
                    ex.setitem(d, k, args[1] if len(args) > 1 else None)
                return d
            if name == "__init__":
                return None
            raise Unsupported("type method %s.%s" % (o.name, name))
        if isinstance(o, ListV):
            return self.list_method(ex, o, name, args, kwargs)
        if isinstance(o, SetV):
            if name == "add":
                self.set_add(ex, o, args[0])
                return None
            if name == "update":
                for x in ex.concrete_items(args[0]):
                    self.set_add(ex, o, x)
                return None
            if name == "clear":
                ex.hset(o, "sitems", ())
                return None
            raise Unsupported("set.%s" % name)
        if isinstance(o, DictV):
            return self.dict_method(ex, o, name, args, kwargs)
        if isinstance(o, GenV):
            if name in ("__next__", "next"):
                return self.next_(ex, [o])
        if isinstance(o, IterV) and name in ("__next__", "next"):
            return self.next_(ex, [o])
        if isinstance(o, tuple):
            if name == "index":
                for k, x in enumerate(o):
                    if ex.branch(ex.eq(x, args[0])):
                        return k
                ex.raise_("ValueError")
            if name == "count":
                raise Unsupported("tuple.count")
        h = getattr(o, "method", None)
        if h:
            return h(ex, name, args, kwargs)
        if o is None or ex.is_int(o) or ex.is_bool(o):
            ex.raise_("AttributeError", name)
        raise Unsupported("method %s of %s" % (name, type(o).__name__))

    def dict_method(self, ex, o, name, args, kwargs):
        items = ex.content(o)
        if name == "get":
            dflt = args[1] if len(args) > 1 else kwargs.get("default")
            try:
                return self.getitem(ex, o, args[0])
            except PyRaise as r:
                if r.cls == "KeyError":
                    return dflt
                raise
        if name in ("items", "iteritems") and isinstance(items, dict):
            return tuple((k, v) for k, v in items.items())
        if name in ("keys", "iterkeys") and isinstance(items, dict):
            return tuple(items)
        if name in ("values", "itervalues") and isinstance(items, dict):
            return tuple(items.values())
        if name == "setdefault":
            try:
                return self.getitem(ex, o, args[0])
            except PyRaise as r:
                if r.cls != "KeyError":
                    raise
                self.setitem(ex, o, args[0], args[1])
                return args[1]
        if name == "update" and isinstance(items, dict):
            if args:
                src = args[0]
                si = ex.content(src) if isinstance(src, DictV) else None
                if not isinstance(si, dict):
                    raise Unsupported("dict.update")
                for k, v in si.items():
                    self.setitem(ex, o, k, v)
            for k, v in kwargs.items():
                self.setitem(ex, o, k, v)
            return None
        if name == "pop" and isinstance(items, dict) and \
                self.hashable_conc(args[0]):
            if args[0] in items:
                new = dict(items)
                v = new.pop(args[0])
                ex.hset(o, "ditems", new)
                return v
            if len(args) > 1:
                return args[1]
            ex.raise_("KeyError")
        if name == "copy" and isinstance(items, dict):
            return DictV(ex, dict(items))
        if name in ("items", "keys", "values"):
            h = ex.spec_state.get("map_iter")
            if h:
                return h(ex, o, name)
        raise Unsupported("dict.%s" % name)

    def split_ws(self, ex, s, left, right, chars=None):
        """strip: s == a + r + b with a, b of strip characters only and r
        not starting/ending with one"""
        cs = WS if chars is None else list(chars)
        test = (lambda t: ALLWS(t)) if chars is None else \
            (lambda t: self.all_in(t, chars))
        one = ws_char if chars is None else (lambda c: char_in(c, cs))
        s = sv(s)
        n = ex.length(s)
        i = ex.fresh("int", "lstrip") if left else z3.IntVal(0)
        j = ex.fresh("int", "rstrip") if right else n
        if chars is None:
            # canonical names, shared with re's \\S
            if left:
                ex.assume(i == LEADWS(s))
            if right:
                ex.assume(j == (z3.If(i == n, n, TRAILWS(s)) if left else
                                TRAILWS(s)))
        ex.assume(z3.And(0 <= i, i <= j, j <= n))
        r = ex.sub(s, i, j)
        if left:
            ex.assume(test(ex.sub(s, 0, i)))
            ex.assume(z3.Or(i == j if right else i == n,
                            z3.Not(one(ex.sub(s, i, i + 1)))))
        if right:
            ex.assume(test(ex.sub(s, j, n)))
            ex.assume(z3.Or(i == j, z3.Not(one(ex.sub(s, j - 1, j)))))
        if left and right:
            # an all-strip-character string strips to ""; canonical split
            ex.assume(z3.Implies(i == j, i == n))
        elif right:
            ex.assume(z3.Implies(i == j, j == 0))
        return r

    def all_in(self, t, chars):
        return self.charset_fn(chars)(t)

    _cs = {}

    def charset_fn(self, chars):
        key = "".join(sorted(set(chars)))
        if key not in self._cs:
            self._cs[key] = core.Hom(
                "all_in_%d" % len(self._cs), Bool, True,
                lambda a, b: z3.And(a, b), lambda c: char_in(c, key),
                lambda s: all(x in key for x in s))
        return self._cs[key]

    def str_method(self, ex, s, name, args, kwargs):
        allc = isinstance(s, str) and all(
            a is None or isinstance(a, (str, int)) or (
                isinstance(a, tuple) and all(isinstance(x, str) for x in a))
            for a in args) and not kwargs
        if allc and name in (
                "startswith", "endswith", "index", "find", "rfind", "rindex",
                "replace", "strip", "lstrip", "rstrip", "lower", "upper",
                "isspace", "isdigit", "count", "isalnum", "isalpha",
                "isnumeric", "title", "zfill", "ljust", "islower",
                "capitalize"):
            try:
                return getattr(s, name)(*args)
            except ValueError:
                ex.raise_("ValueError")
        if allc and name in ("split", "splitlines", "rsplit"):
            return ListV(ex, tuple(getattr(s, name)(*args)))
        if allc and name in ("partition", "rpartition"):
            return tuple(getattr(s, name)(*args))
        if name == "format":
            return self.format(ex, s, args, kwargs)
        if name == "join":
            return self.join(ex, s, args[0])
        if name == "encode":
            b = BytesV(ex, s, args[0] if args else kwargs.get(
                "encoding", "utf-8"))
            if b.enc.lower() in ("ascii",):
                if not ex.branch(ASCII(sv(s))):
                    ex.raise_("UnicodeEncodeError")
            return b
        if name in ("startswith", "endswith"):
            t = sv(s)
            p = args[0]
            if len(args) > 1:
                if name == "startswith":
                    t = sv(str_slice(ex, s, args[1],
                                     args[2] if len(args) > 2 else None,
                                     None))
                else:
                    raise Unsupported("endswith with bounds")
            f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
            if isinstance(p, tuple):
                return ex.disj([f(sv(x), t) for x in p])
            if not ex.is_str(p):
                ex.raise_("TypeError")
            return f(sv(p), t)
        if name in ("index", "find"):
            return self.find(ex, s, name, args)
        if name in ("rindex", "rfind"):
            return self.rfind(ex, s, name, args)
        if name == "count":
            if args[0] == "\n":
                t = sv(s)
                if len(args) > 1:
                    t = sv(str_slice(ex, s, args[1],
                                     args[2] if len(args) > 2 else None,
                                     None))
                return CNT_NL(t)
            if isinstance(args[0], str) and len(args[0]) == 1 and \
                    len(args) == 1:
                return count_fn(args[0])(sv(s))
            r = ex.fresh("int", "count")
            ex.assume(r >= 0)
            ex.assume((r == 0) == z3.Not(z3.Contains(sv(s), sv(args[0]))))
            return r
        if name == "replace":
            a, b = args[0], args[1]
            if isinstance(a, str) and isinstance(b, str) and \
                    len(args) == 2 and a:
                f = repl_fn(a, b)
                return core.flat_after(f, sv(s)) if hasattr(f, "cases") \
                    else f(sv(s))
            if len(args) == 3:
                if args[2] == 1:
                    return z3.Replace(sv(s), sv(a), sv(b))
                raise Unsupported("replace with count")
            h = ex.spec_state.get("str_replace")
            if h:
                return h(ex, s, a, b)
            f = z3.Function("replace_all", Str, Str, Str, Str)
            r = f(sv(s), sv(a), sv(b))
            ex.assume(z3.Implies(z3.Not(z3.Contains(sv(s), sv(a))),
                                 r == sv(s)))
            return r
        if name in ("strip", "lstrip", "rstrip"):
            ch = args[0] if args else None
            if ch is not None and not isinstance(ch, str):
                raise Unsupported("strip with symbolic characters")
            return self.split_ws(ex, s, name != "rstrip", name != "lstrip",
                                 ch)
        if name == "isspace":
            t = sv(s)
            if ex.entails(z3.Length(t) == 1):
                return ws_char(t)
            return z3.And(z3.Length(t) > 0, ALLWS(t))
        if name == "isdigit":
            t = sv(s)
            f = z3.Function("isdigit", Str, Bool)
            r = f(t)
            ex.assume(z3.Implies(z3.InRe(t, z3.Plus(z3.Range("0", "9"))), r))
            ex.assume(z3.Implies(z3.Length(t) == 0, z3.Not(r)))
            ex.assume(z3.Implies(
                z3.And(r, z3.InRe(t, z3.Star(z3.Range("\x00", "\x7f")))),
                z3.InRe(t, z3.Plus(z3.Range("0", "9")))))
            return r
        if name in ("lower", "upper", "title", "capitalize"):
            f = z3.Function("str_" + name, Str, Str)
            return f(sv(s))
        if name in ("isalnum", "isalpha", "isnumeric", "islower", "isupper"):
            f = z3.Function("str_" + name, Str, Bool)
            return f(sv(s))
        if name == "split" or name == "splitlines":
            return self.split(ex, s, name, args)
        if name in ("partition",):
            t, sep = sv(s), sv(args[0])
            if ex.branch(z3.Contains(t, sep)):
                k = z3.IndexOf(t, sep, 0)
                return (prefix(t, k), args[0], suffix(t, k + z3.Length(sep)))
            return (s, "", "")
        if name == "decode":
            ex.raise_("AttributeError")
        raise Unsupported("str.%s" % name)

    def find(self, ex, s, name, args):
        t, sub = sv(s), args[0]
        if not ex.is_str(sub):
            ex.raise_("TypeError")
        sub = sv(sub)
        n = z3.Length(t)
        start = z3.IntVal(0)
        if len(args) > 1 and args[1] is not None:
            start = norm_index(ex, args[1], n)
        hay = t
        if len(args) > 2 and args[2] is not None:
            hay = prefix(t, norm_index(ex, args[2], n))
        k = ex.fresh("int", "found")
        if len(args) <= 2 and z3.is_string_value(sub) and \
                t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and \
                ex.inb(*t.children()):
            return self.find_within(ex, t, sub, start, name, k)
        # ghost characterisation of the first occurrence
        hit = z3.And(start <= k, k + z3.Length(sub) <= z3.Length(hay),
                     sl(t, k, k + z3.Length(sub)) == sub,
                     k == z3.IndexOf(hay, sub, start))
        if z3.is_string_value(sub) and len(pystr(sub)) == 1:
            hit = z3.And(hit, z3.Not(z3.Contains(sl(t, start, k), sub)))
        missing = z3.And(z3.Or(start > z3.Length(hay),
                               z3.Not(z3.Contains(suffix(hay, start), sub))))
        ok = ex.fresh("bool", "has")
        ex.assume(z3.If(ok, hit, z3.And(missing, k == -1)))
        for t2, a, b in ex.spec_state.get("parts", ()):
            # the first occurrence is not after any occurrence
            if t2.eq(t) and len(args) <= 2:
                ex.assume(z3.Implies(z3.And(sl(t, a, b) == sub, start <= a),
                                     z3.And(ok, k <= a)))
        h = ex.spec_state.get("on_find")
        if h:
            h(ex, t, sub, start, ok)
        if name == "find":
            # keep one value: -1 when missing
            return k
        if not ex.branch(ok):
            ex.raise_("ValueError")
        return k

    def find_within(self, ex, t, sub, start, name, k):
        """first occurrence of a literal in a part of a longer text, with
        offsets kept relative to the longer text"""
        lit = pystr(sub)
        m, n = len(lit), ex.length(t)
        ex.assume(k == FOUND(t, sub, start))
        if len(lit) == 1:
            f = count_fn(lit)

            def none(a, b):
                return f(ex.sub(t, a, b)) == 0
        else:
            def none(a, b):
                return z3.Not(z3.Contains(ex.sub(t, a, b), sub))
        if not ex.branch(k >= 0):
            ex.assume(k == -1)
            if ex.branch(start <= n):
                ex.assume(none(start, n))
            if name == "index":
                ex.raise_("ValueError")
            return k
        ex.assume(z3.And(start <= k, k + m <= n))
        ex.assume(ex.sub(t, k, k + m) == sub)
        ex.assume(none(start, k + m - 1))
        return k

    def rfind(self, ex, s, name, args):
        t, sub = sv(s), sv(args[0])
        end = None
        if len(args) > 1:
            if args[1] not in (0, None) or not isinstance(
                    args[1], (int, type(None))):
                raise Unsupported("rfind with bounds")
            if len(args) > 2:
                end = norm_index(ex, args[2], z3.Length(t))
        if end is None:
            end = z3.Length(t)
            ok = z3.Contains(t, sub)
        else:
            ok = z3.Contains(prefix(t, end), sub)
        memo = ex.spec_state.setdefault("rfinds", {})
        key = (t.get_id(), sub.get_id(), end.get_id())
        if key in memo:
            k = memo[key][0]
            if name == "rindex" and not ex.branch(ok):
                ex.raise_("ValueError")
            return k
        k = ex.fresh("int", "rfound")
        memo[key] = k, t, sub, end
        hit = z3.And(0 <= k, k + z3.Length(sub) <= end,
                     sl(t, k, k + z3.Length(sub)) == sub,
                     z3.Not(z3.Contains(sl(t, k + 1, end), sub)))
        ex.assume(z3.If(ok, hit, k == -1))
        for t2, a, b in ex.spec_state.get("parts", ()):
            # the last occurrence is not before any occurrence
            if t2.eq(t):
                ex.assume(z3.Implies(z3.And(sl(t, a, b) == sub, b <= end),
                                     z3.And(ok, k >= a)))
        if name == "rindex" and not ex.branch(ok):
            ex.raise_("ValueError")
        return k

    def split(self, ex, s, name, args):
        h = ex.spec_state.get("str_split")
        if h:
            return h(ex, s, name, args)
        if name == "split" and len(args) == 2 and args[1] == 1 and \
                args[0] is not None:
            t, sep = sv(s), sv(args[0])
            if ex.branch(z3.Contains(t, sep)):
                k = z3.IndexOf(t, sep, 0)
                return ListV(ex, (prefix(t, k),
                                  suffix(t, k + z3.Length(sep))))
            return ListV(ex, (s,))
        if name == "split" and args and isinstance(args[0], str) and \
                args[0] and (len(args) == 1 or isinstance(args[1], int) and
                             args[1] >= 0):
            return SplitV(ex, sv(s), args[0],
                          args[1] if len(args) > 1 else None)
        if name == "split" and args and isinstance(args[0], str) and \
                len(args) == 1:
            # unknown number of pieces; sep.join(pieces) == s and no piece
            # contains the separator
            lst = ex.fresh("lst", "pieces")
            f = joinsep(args[0])
            ex.assume(f(lst) == sv(s))
            ex.assume(z3.Not(lst == NIL))
            ex.spec_state.setdefault("split_pieces", []).append(
                (lst, sv(s), args[0]))
            return ListV(ex, SymLst(lst, "str"))
        lst = ex.fresh("lst", "pieces")
        return ListV(ex, SymLst(lst, "str"))

    def join(self, ex, sep, seq):
        if isinstance(seq, GenV):
            seq = seq.lst
        if isinstance(seq, (MapIter,)):
            out = ListV(ex, ())
            ex.for_loop(_fake_node(), None, seq, lambda x: self.list_method(
                ex, out, "append", [x], {}), lambda: None)
            seq = out
        if ex.is_str(seq):
            if sep == "":
                return seq
            raise Unsupported("join of a string")
        if isinstance(seq, SetV):
            seq = ListV(ex, ex.content(seq))
        if isinstance(seq, DictV):
            seq = tuple(ex.concrete_items(seq))
        if isinstance(seq, ListV):
            items = ex.content(seq)
        elif isinstance(seq, tuple):
            items = seq
        else:
            h = getattr(seq, "join", None)
            if h:
                return h(ex, sep)
            raise Unsupported("join of %s" % type(seq).__name__)
        if isinstance(items, tuple):
            out = []
            for i, x in enumerate(items):
                x = ex.resolve_any(x)
                if not ex.is_str(x):
                    ex.raise_("TypeError")
                if i and sep != "":
                    out.append(sep)
                out.append(x)
            return self.concat(ex, out)
        if isinstance(items, SymLst):
            if sep == "":
                return JOIN(items.term)
            if isinstance(sep, str):
                return joinsep(sep)(items.term)
        raise Unsupported("join with symbolic separator")

    # ---------------------------------------------------------- functions
    def next_(self, ex, args):
        it = self.iter(ex, args[0])
        ok, x = it.next(ex)
        if not ok:
            if len(args) > 1:
                return args[1]
            ex.raise_("StopIteration")
        return x

    def isinstance_(self, ex, v, t):
        if isinstance(t, tuple):
            return ex.disj([self.isinstance_(ex, v, x) for x in t])
        if isinstance(t, SymAny) or t is None:
            raise Unsupported("isinstance target")
        if isinstance(v, SymAny) and isinstance(t, TypeV):
            u = v.term
            if t.name == "str":
                return Val.is_VStr(u)
            if t.name == "int":
                return z3.Or(Val.is_VInt(u), Val.is_VBool(u))
            if t.name == "bool":
                return Val.is_VBool(u)
            h = ex.spec_state.get("ref_isinstance")
            if h:
                return z3.And(Val.is_VRef(u), h(ex, u, t))
            f = z3.Function("is_" + t.name, Int, Bool)
            return z3.And(Val.is_VRef(u), f(Val.vr(u)))
        if isinstance(v, SymAny) and isinstance(t, ClassV):
            h = ex.spec_state.get("ref_isinstance")
            if h:
                return z3.And(Val.is_VRef(v.term), h(ex, v.term, t))
        h = getattr(v, "isinstance", None)
        if h:
            return h(ex, t)
        if isinstance(t, TypeV):
            n = t.name
            if n == "object":
                return True
            if n == "str":
                return ex.is_str(v)
            if n == "int":
                return ex.is_int(v) or ex.is_bool(v)
            if n == "bool":
                return ex.is_bool(v)
            if n == "float":
                return isinstance(v, float)
            if n == "list":
                return isinstance(v, ListV)
            if n == "dict":
                return isinstance(v, DictV)
            if n == "set":
                return isinstance(v, SetV)
            if n == "tuple":
                return isinstance(v, tuple)
            if n == "bytes":
                return isinstance(v, BytesV)
            if n == "type":
                return isinstance(v, (ClassV, TypeV))
            if isinstance(v, ExcV):
                return ex.exc_matches(v.r, t)
            return False
        if isinstance(t, ClassV):
            if isinstance(v, Obj) and isinstance(v.cls, ClassV):
                return t in ex.mro(v.cls)
            if isinstance(v, ExcV):
                return ex.exc_matches(v.r, t)
            if isinstance(v, SymAny):
                raise Unsupported("isinstance of an unknown value")
            return False
        if isinstance(t, ExtV):
            if v is None or ex.is_str(v) or ex.is_int(v) or ex.is_bool(v) or \
                    isinstance(v, (ListV, DictV, SetV, tuple)):
                if t.name.split(".")[-1] in ("Mapping", "Iterable"):
                    raise Unsupported("abc isinstance")
                return False
        raise Unsupported("isinstance(%s, %r)" % (type(v).__name__, t))

    def type_call(self, ex, name, args, kwargs):
        if is_exc_name(name):
            return PyRaise(name, tuple(args))
        if name == "str":
            if not args:
                return ""
            return self.to_str(ex, args[0])
        if name == "list":
            if not args:
                return ListV(ex, ())
            v = args[0]
            if isinstance(v, GenV):
                v = v.lst
            if isinstance(v, ListV):
                return ListV(ex, ex.content(v))
            it = self.iter(ex, v)
            h = getattr(it, "as_list", None)
            if h:
                return h(ex)
            out = ListV(ex, ())
            ex.for_loop(_fake_node(), None, it, lambda x: self.list_method(
                ex, out, "append", [x], {}), lambda: None)
            return out
        if name == "tuple":
            if not args:
                return ()
            return tuple(ex.concrete_items(args[0]))
        if name == "dict":
            d = DictV(ex, {})
            if args:
                src = args[0]
                if isinstance(src, DictV):
                    c = ex.content(src)
                    ex.hset(d, "ditems", dict(c) if isinstance(c, dict)
                            else c)
                else:
                    for p in ex.concrete_items(src):
                        k, v = ex.unpack(p, 2)
                        ex.setitem(d, k, v)
            for k, v in kwargs.items():
                ex.setitem(d, k, v)
            return d
        if name in ("set", "frozenset"):
            if not args:
                return SetV(ex, ())
            return self.make_set(ex, ex.concrete_items(args[0]))
        if name == "int":
            v = ex.resolve_any(args[0])
            if isinstance(v, str) and (len(args) == 1 or
                                       isinstance(args[1], int)):
                try:
                    return int(v, *args[1:])
                except ValueError:
                    ex.raise_("ValueError")
            if isinstance(v, (int, float)):
                return int(v)
            if ex.is_int(v):
                return v
            if ex.is_str(v):
                t = sv(v)
                digits = z3.InRe(t, z3.Plus(z3.Range("0", "9")))
                ok, n = ex.fresh("bool", "int_ok"), ex.fresh("int", "intval")
                if len(args) == 1:
                    ex.assume(z3.Implies(digits, z3.And(
                        ok, n == z3.StrToInt(t))))
                if not ex.branch(ok):
                    ex.raise_("ValueError")
                return n
            if v is None:
                ex.raise_("TypeError")
        if name == "bool":
            t = ex.truth(args[0]) if args else False
            return t
        if name == "float":
            if isinstance(args[0], (int, float)):
                return float(args[0])
        if name == "object":
            return Obj(ex, "object")
        if name == "type" and len(args) == 1:
            v = args[0]
            if isinstance(v, Obj) and isinstance(v.cls, ClassV):
                return v.cls
            if ex.is_str(v):
                return TypeV("str")
            if v is None:
                return TypeV("NoneType")
            if isinstance(v, (ListV, DictV, SetV)):
                return TypeV(v.cls)
            if ex.is_bool(v):
                return TypeV("bool")
            if ex.is_int(v):
                return TypeV("int")
            h = getattr(v, "pytype", None)
            if h:
                return h(ex)
        raise Unsupported("%s(...)" % name)

    def ext(self, ex, name, args, kwargs):
        m = getattr(self, "x_" + name.replace(".", "__"), None)
        if m is not None:
            return m(ex, args, kwargs)
        h = ex.spec_state.get("ext")
        if h:
            r = h(ex, name, args, kwargs)
            if r is not NotImplemented:
                return r
        raise Unsupported("external function %s" % name)

    def x_builtins__len(self, ex, args, kwargs):
        v = ex.resolve_any(args[0])
        if isinstance(v, (str, tuple)):
            return len(v)
        if ex.is_str(v):
            return ex.length(v)
        if isinstance(v, (ListV, SetV, DictV)):
            items = ex.content(v)
            if isinstance(items, (tuple, dict)):
                if isinstance(v, SetV) and not all(
                        self.hashable_conc(x) for x in items):
                    raise Unsupported("len of a set of symbolic values")
                return len(items)
            if isinstance(items, SymLst):
                ex.assume(LLEN(items.term) >= 0)
                return LLEN(items.term)
        h = getattr(v, "len", None)
        if h:
            return h(ex)
        if v is None or ex.is_int(v) or ex.is_bool(v):
            ex.raise_("TypeError")
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            m = ex.class_attr(v.cls, "__len__")
            if m is not None:
                return ex.call_func(m, [v], {})
        raise Unsupported("len(%s)" % type(v).__name__)

    def x_builtins__isinstance(self, ex, args, kwargs):
        return self.isinstance_(ex, args[0], args[1])

    def x_builtins__range(self, ex, args, kwargs):
        args = [ex.resolve_any(a) for a in args]
        a, b, c = 0, None, 1
        if len(args) == 1:
            b = args[0]
        else:
            a, b = args[0], args[1]
            if len(args) > 2:
                c = args[2]
        if all(isinstance(x, int) for x in (a, b, c)):
            return tuple(range(a, b, c))
        if not isinstance(c, int):
            raise Unsupported("range step")
        return RangeIter(ex, a, b, c)

    x_six__moves__xrange = x_builtins__range
    x_six__moves__range = x_builtins__range

    def x_builtins__enumerate(self, ex, args, kwargs):
        start = args[1] if len(args) > 1 else kwargs.get("start", 0)
        return EnumIter(ex, self.iter(ex, args[0]), start)

    def x_builtins__zip(self, ex, args, kwargs):
        return ZipIter(ex, [self.iter(ex, a) for a in args])

    def x_builtins__map(self, ex, args, kwargs):
        return MapIter(ex, args[0], self.iter(ex, args[1]))

    def x_builtins__reversed(self, ex, args, kwargs):
        v = args[0]
        if isinstance(v, ListV) and isinstance(ex.content(v), SymLst):
            c = ex.content(v)
            return RevIter(ex, c.term, c.elem)
        return ConcIter(ex, tuple(reversed(ex.concrete_items(v))))

    def x_builtins__any(self, ex, args, kwargs):
        for x in ex.concrete_items(args[0]):
            if ex.test(x):
                return True
        return False

    def x_builtins__all(self, ex, args, kwargs):
        for x in ex.concrete_items(args[0]):
            if not ex.test(x):
                return False
        return True

    def x_builtins__next(self, ex, args, kwargs):
        return self.next_(ex, args)

    def x_builtins__iter(self, ex, args, kwargs):
        return self.iter(ex, args[0])

    def x_builtins__sorted(self, ex, args, kwargs):
        v = args[0]
        try:
            items = ex.concrete_items(v)
        except Unsupported:
            items = None
        if items is not None and not kwargs and all(
                isinstance(x, (int, str)) for x in items):
            return ListV(ex, tuple(sorted(items)))
        if items is not None and len(items) <= 1:
            return ListV(ex, items)
        if isinstance(v, SetV):
            return ListV(ex, SymLst(ex.fresh("lst", "sorted")))
        raise Unsupported("sorted")

    def x_builtins__min(self, ex, args, kwargs):
        return self._minmax(ex, args, True, kwargs)

    def x_builtins__max(self, ex, args, kwargs):
        return self._minmax(ex, args, False, kwargs)

    def _minmax(self, ex, args, mn, kwargs):
        if kwargs:
            raise Unsupported("min/max with key")
        xs = args if len(args) > 1 else list(ex.concrete_items(args[0]))
        xs = [ex.resolve_any(x) for x in xs]
        if not xs:
            ex.raise_("ValueError")
        if all(isinstance(x, (int, float, str)) for x in xs):
            return min(xs) if mn else max(xs)
        r = xs[0]
        for x in xs[1:]:
            if not (ex.is_int(r) and ex.is_int(x)):
                raise Unsupported("min/max")
            r = z3.If(iv(x) < iv(r), iv(x), iv(r)) if mn else \
                z3.If(iv(x) > iv(r), iv(x), iv(r))
        return r

    def x_builtins__sum(self, ex, args, kwargs):
        r = 0
        for x in ex.concrete_items(args[0]):
            r = self.binop(ex, ast.Add(), r, x)
        return r

    def x_builtins__getattr(self, ex, args, kwargs):
        if not isinstance(args[1], str):
            raise Unsupported("getattr with symbolic name")
        try:
            return ex.getattr(args[0], args[1])
        except PyRaise as r:
            if r.cls == "AttributeError" and len(args) > 2:
                return args[2]
            raise

    def x_builtins__hasattr(self, ex, args, kwargs):
        try:
            ex.getattr(args[0], args[1])
            return True
        except PyRaise as r:
            if r.cls == "AttributeError":
                return False
            raise

    def x_builtins__setattr(self, ex, args, kwargs):
        if not isinstance(args[1], str):
            raise Unsupported("setattr with symbolic name")
        ex.setattr(args[0], args[1], args[2])

    def x_builtins__ord(self, ex, args, kwargs):
        v = ex.resolve_any(args[0])
        if isinstance(v, str):
            return ord(v)
        if not ex.branch(z3.Length(v) == 1):
            ex.raise_("TypeError")
        return z3.StrToCode(v)

    def x_builtins__chr(self, ex, args, kwargs):
        v = ex.resolve_any(args[0])
        if isinstance(v, int):
            return chr(v)
        return z3.StrFromCode(v)

    def x_builtins__repr(self, ex, args, kwargs):
        return ex.fresh("str", "repr")

    def x_builtins__print(self, ex, args, kwargs):
        return None

    def x_builtins__object_init(self, ex, args, kwargs):
        return None

    def x_six__iteritems(self, ex, args, kwargs):
        return self.method(ex, args[0], "items", [], {})

    def x_six__iterkeys(self, ex, args, kwargs):
        return self.method(ex, args[0], "keys", [], {})

    def x_six__itervalues(self, ex, args, kwargs):
        return self.method(ex, args[0], "values", [], {})

    def x_itertools__count(self, ex, args, kwargs):
        return CountIter(ex, args[0] if args else 0)

    def x_copy__copy(self, ex, args, kwargs):
        v = args[0]
        if isinstance(v, ListV):
            return ListV(ex, ex.content(v))
        if isinstance(v, DictV):
            return DictV(ex, dict(ex.content(v)))
        raise Unsupported("copy.copy")

    # ---- hashing
    def x_hashlib__md5(self, ex, args, kwargs):
        ex.trusted.add("hashlib.md5: a function of its input; hexdigest is 32 "
                       "lowercase hex digits")
        b = args[0]
        if isinstance(b, BytesV):
            return Md5V(ex, sv(b.s))
        raise Unsupported("md5")

    # ---- json
    def x_json__loads(self, ex, args, kwargs):
        s = ex.resolve_any(args[0])
        if isinstance(s, str):
            try:
                v = _json.loads(s)
            except ValueError:
                ex.raise_("JSONDecodeError")
            return self.from_py(ex, v)
        h = ex.spec_state.get("json_loads")
        if h:
            return h(ex, s)
        raise Unsupported("json.loads")

    def from_py(self, ex, v):
        if isinstance(v, list):
            return ListV(ex, tuple(self.from_py(ex, x) for x in v))
        if isinstance(v, dict):
            return DictV(ex, {k: self.from_py(ex, x) for k, x in v.items()})
        return v

    # ---- re
    def x_re__compile(self, ex, args, kwargs):
        fl = args[1] if len(args) > 1 else kwargs.get("flags", 0)
        return regex.Pattern(args[0], fl)

    def _re(self, ex, how, args, kwargs):
        fl = args[2] if len(args) > 2 else kwargs.get("flags", 0)
        p = args[0]
        if not isinstance(p, regex.Pattern):
            p = regex.Pattern(p, fl)
        return p.method(ex, how, [args[1]], {})

    def x_re__search(self, ex, args, kwargs):
        return self._re(ex, "search", args, kwargs)

    def x_re__match(self, ex, args, kwargs):
        return self._re(ex, "match", args, kwargs)

    def x_re__fullmatch(self, ex, args, kwargs):
        return self._re(ex, "fullmatch", args, kwargs)

    def x_re__finditer(self, ex, args, kwargs):
        return self._re(ex, "finditer", args, kwargs)

    def x_re__sub(self, ex, args, kwargs):
        p = args[0]
        if not isinstance(p, regex.Pattern):
            p = regex.Pattern(p, kwargs.get("flags", 0))
        return p.method(ex, "sub", list(args[1:]), {})

    def x_re__findall(self, ex, args, kwargs):
        return self._re(ex, "findall", args, kwargs)

    def x_re__split(self, ex, args, kwargs):
        return self._re(ex, "split", args, kwargs)

    def x_re__escape(self, ex, args, kwargs):
        import re
        if isinstance(args[0], str):
            return re.escape(args[0])
        return regex.Escaped(args[0])


class SplitV(ListV):
    """the pieces of s.split(sep[, most]); exact as long as it is not
    modified"""

    def __init__(self, ex, s, sep, most):
        self.s, self.sep, self.most = s, sep, most
        self.lst = ex.fresh("lst", "pieces")
        self.orig = SymLst(self.lst, "str")
        ListV.__init__(self, ex, self.orig)
        ex.assume(z3.Not(self.lst == NIL))
        self.n = LLEN(self.lst)
        ex.assume(self.n >= 1)
        self.m = len(sep)
        self.POS = z3.Function(ex.fresh_name("piece_pos"), Int, Int)
        if most is None:
            ex.assume(joinsep(sep)(self.lst) == s)
        else:
            ex.assume(self.n <= most + 1)
        self.walked = [z3.IntVal(0)]      # starts of the first pieces
        self.ended = None
        h = ex.spec_state.get("on_split")
        if h:
            h(ex, self)

    def intact(self, ex):
        return ex.content(self) is self.orig

    def next_sep(self, ex, pos):
        """position of the first separator from pos on, or None (branches)"""
        s, sep, n = self.s, z3.StringVal(self.sep), z3.Length(self.s)
        k = ex.fresh("int", "sep")
        ok = ex.fresh("bool", "more")
        facts = [pos <= k, k + self.m <= n, k == z3.IndexOf(s, sep, pos),
                 substr(s, k, self.m) == sep]
        ex.assume(z3.If(ok, z3.And(*facts),
                        z3.Not(z3.Contains(suffix(s, pos), sep))))
        return k if ex.branch(ok) else None

    def start(self, ex, i):
        """start of piece i (concrete), None when there is no such piece"""
        while len(self.walked) <= i:
            if self.ended is not None:
                return None
            if self.most is not None and len(self.walked) > self.most:
                self.ended = len(self.walked)
                ex.assume(self.n == self.ended)
                return None
            k = self.next_sep(ex, self.walked[-1])
            if k is None:
                self.ended = len(self.walked)
                ex.assume(self.n == self.ended)
                return None
            self.walked.append(k + self.m)
            ex.assume(self.POS(z3.IntVal(len(self.walked) - 1)) ==
                      self.walked[-1])
            ex.assume(self.n >= len(self.walked))
        return self.walked[i]

    def piece(self, ex, i):
        a = self.start(ex, i)
        if a is None:
            return None
        b = self.start(ex, i + 1)
        return sl(self.s, a, b - self.m) if b is not None else \
            suffix(self.s, a)

    def pos_facts(self, ex, i):
        """piece i starts at POS(i); 0 <= i <= n"""
        P, m, n = self.POS, self.m, z3.Length(self.s)
        i = iv(i)
        ex.assume(z3.And(
            P(z3.IntVal(0)) == 0,
            P(i) >= i * m, P(i) <= n + m,
            z3.Implies(i < self.n, P(i) <= n),
            (i == self.n) == (P(i) == n + m),
            z3.Implies(z3.And(i >= 1, i < self.n), substr(
                self.s, P(i) - m, m) == z3.StringVal(self.sep))))

    def sym_piece(self, ex, i):
        P, m = self.POS, self.m
        self.pos_facts(ex, i)
        self.pos_facts(ex, i + 1)
        ex.assume(P(i + 1) >= P(i) + m)
        r = sl(self.s, P(i), P(i + 1) - m)
        if self.most is None:
            ex.assume(z3.Not(z3.Contains(r, z3.StringVal(self.sep))))
        return r


class SplitSlice(object):
    """pieces[a:b]"""

    def __init__(self, sp, a, b):
        self.sp, self.a, self.b = sp, a, b

    def join(self, ex, sep):
        sp = self.sp
        if not (isinstance(sep, str) and sep == sp.sep):
            return ex.fresh("str", "joined")
        P, m = sp.POS, sp.m
        a = z3.IntVal(0) if self.a is None else iv(self.a)
        b = sp.n if self.b is None else iv(self.b)
        # clamp
        ex.assume(z3.And(a >= 0, b >= 0)) if not ex.entails(
            z3.And(a >= 0, b >= 0)) else None
        a = z3.If(a > sp.n, sp.n, a)
        b = z3.If(b > sp.n, sp.n, b)
        sp.pos_facts(ex, a)
        sp.pos_facts(ex, b)
        ex.assume(z3.Implies(a < b, P(a) + m <= P(b)))
        return z3.If(a < b, sl(sp.s, P(a), P(b) - m), z3.StringVal(""))


class SplitIter(IterV):
    """front to back over the pieces; `pos` is where the next piece starts
    (len+len(sep) when there is none), `pre` the pieces seen"""

    def __init__(self, ex, sp):
        IterV.__init__(self, ex)
        self.sp = sp
        ex.hset(self, "pos", z3.IntVal(0))
        ex.hset(self, "pre", NIL)

    def next(self, ex):
        sp = self.sp
        s, m = sp.s, sp.m
        n = z3.Length(s)
        pos, pre = ex.hget(self, "pos"), ex.hget(self, "pre")
        ex.assume(z3.And(0 <= pos, z3.Or(pos <= n, pos == n + m),
                         (pos == 0) == (pre == NIL), z3.Or(
                             pos == 0, pos >= m),
                         z3.Implies(z3.And(pos > 0, pos <= n), substr(
                             s, pos - m, m) == z3.StringVal(sp.sep))))
        J = joinsep(sp.sep)
        ex.assume(z3.Implies(pos > 0, J(pre) == prefix(s, pos - m)))
        if not ex.branch(pos <= n):
            ex.assume(pre == sp.lst)
            ex.assume(pos == n + m)
            return False, None
        k = sp.next_sep(ex, pos)
        piece = suffix(s, pos) if k is None else sl(s, pos, k)
        ex.hset(self, "pos", n + m if k is None else k + m)
        ex.hset(self, "pre", snoc(pre, Val.VStr(piece)))
        return True, piece


class HKey(object):
    def __init__(self, v):
        self.v = v


class RevLst(object):
    def __init__(self, ex, term, elem):
        self.term, self.elem = term, elem


class BytesV(object):
    """str.encode(enc) kept symbolic"""

    def __init__(self, ex, s, enc):
        self.s, self.enc = s, enc if isinstance(enc, str) else "?"

    def get_attr(self, ex, name):
        return BuiltinM(name, self)

    def method(self, ex, name, args, kwargs):
        if name == "decode":
            enc = args[0] if args else kwargs.get("encoding", "utf-8")
            if enc.lower().replace("-", "") == self.enc.lower().replace(
                    "-", ""):
                return self.s
            if enc == "unicode-escape":
                h = ex.spec_state.get("unicode_escape")
                if h:
                    return h(ex, self.s)
                ok = ex.fresh("bool", "ue_ok")
                if not ex.branch(ok):
                    ex.raise_("UnicodeDecodeError")
                return ex.fresh("str", "unescaped")
            raise Unsupported("decode %s" % enc)
        raise Unsupported("bytes.%s" % name)


MD5 = z3.Function("md5hex", Str, Str)


class Md5V(object):
    def __init__(self, ex, s):
        self.s = s

    def get_attr(self, ex, name):
        return BuiltinM(name, self)

    def method(self, ex, name, args, kwargs):
        if name == "update":
            b = args[0]
            if not isinstance(b, BytesV):
                raise Unsupported("md5.update")
            self.s = cat(self.s, sv(b.s))
            return None
        if name == "hexdigest":
            r = MD5(sv(self.s))
            ex.assume(z3.Length(r) == 32)
            ex.assume(z3.InRe(r, z3.Star(z3.Union(z3.Range("0", "9"),
                                                  z3.Range("a", "f")))))
            return r
        raise Unsupported("md5.%s" % name)


_JS = {}


def joinsep(sep):
    """spec function for sep.join(list of str)"""
    if sep not in _JS:
        f = JoinSep(sep, "joinsep_%d" % len(_JS))
        _JS[sep] = f
    return _JS[sep]


class JoinSep(core.LHom):
    def __init__(self, sep, name):
        self.sep = sep
        core.LHom.__init__(self, name, Str, "", None, core.vstr)

    def instances(self, t, points):
        F, ax = self.f, []
        if t.decl().name() == "snoc":
            l, v = t.children()
            e = core.vstr(v)
            ax.append(F(t) == z3.If(l == NIL, e,
                                    z3.Concat(F(l), z3.StringVal(self.sep),
                                              e)))
        elif t.decl().name() == "nil":
            ax.append(F(t) == "")
        else:
            ax.append(z3.Implies(t == NIL, F(t) == ""))
        return ax


class _fake_node(object):
    lineno, col_offset = 0, 0
