"""Python `re` on symbolic strings: matches are over-approximated by their
spans and by membership of the matched text in the (regular) language."""
import re as _re
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:      # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

import z3

from . import core
from .core import sv, iv, sl, substr, suffix, prefix, Str
from .interp import Unsupported, Obj, BuiltinM, SliceV


class Escaped(object):
    def __init__(self, s):
        self.s = s


ANY = z3.AllChar(z3.ReSort(Str))
ALL = z3.Full(z3.ReSort(Str))


def _chars_re(codes):
    codes = sorted(codes)
    out, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        out.append(z3.Range(chr(codes[i]), chr(codes[j])))
        i = j + 1
    return union(out)


def union(xs):
    if not xs:
        return z3.Empty(z3.ReSort(Str))
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


def seq(xs):
    if not xs:
        return z3.Re("")
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


def _ws():
    from .models import WS
    return _chars_re(ord(c) for c in WS)


def _category(cat):
    n = str(cat)
    if n.endswith("NOT_SPACE"):
        return z3.Intersect(ANY, z3.Complement(_ws()))
    if n.endswith("SPACE"):
        return _ws()
    if n.endswith("NOT_DIGIT"):
        raise Unsupported("\\D")
    if n.endswith("DIGIT"):
        # \d is wider than ASCII for str patterns: over-approximated below
        return z3.Union(z3.Range("0", "9"), z3.Range("\x80", "\u2ffff"[0]))
    if n.endswith("NOT_WORD"):
        return ANY
    if n.endswith("WORD"):
        return z3.Union(z3.Range("0", "9"), z3.Range("a", "z"),
                        z3.Range("A", "Z"), z3.Re("_"),
                        z3.Range("\x80", "\U0002ffff"))
    raise Unsupported("regex category %s" % n)


def _lang(items, flags, groups):
    out = []
    for op, av in items:
        o = str(op)
        if o == "LITERAL":
            if flags & _re.I and chr(av).lower() != chr(av).upper():
                out.append(z3.Union(z3.Re(chr(av).lower()),
                                    z3.Re(chr(av).upper())))
            else:
                out.append(z3.Re(chr(av)))
        elif o == "NOT_LITERAL":
            out.append(z3.Intersect(ANY, z3.Complement(z3.Re(chr(av)))))
        elif o == "ANY":
            out.append(ANY if flags & _re.S else z3.Intersect(
                ANY, z3.Complement(z3.Re("\n"))))
        elif o == "IN":
            neg, alts = False, []
            for op2, av2 in av:
                o2 = str(op2)
                if o2 == "NEGATE":
                    neg = True
                elif o2 == "LITERAL":
                    alts.append(z3.Re(chr(av2)))
                elif o2 == "RANGE":
                    alts.append(z3.Range(chr(av2[0]), chr(av2[1])))
                elif o2 == "CATEGORY":
                    alts.append(_category(av2))
                else:
                    raise Unsupported("regex set %s" % o2)
            u = union(alts)
            out.append(z3.Intersect(ANY, z3.Complement(u)) if neg else u)
        elif o == "CATEGORY":
            out.append(_category(av))
        elif o in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            r = _lang(sub, flags, groups)
            if hi == sre_c.MAXREPEAT:
                if lo == 0:
                    out.append(z3.Star(r))
                elif lo == 1:
                    out.append(z3.Plus(r))
                else:
                    out.append(z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            elif (lo, hi) == (0, 1):
                out.append(z3.Option(r))
            else:
                out.append(z3.Loop(r, lo, hi))
        elif o == "SUBPATTERN":
            gid, addf, delf, sub = av
            r = _lang(sub, (flags | addf) & ~delf, groups)
            if gid is not None:
                groups[gid] = r
            out.append(r)
        elif o == "BRANCH":
            out.append(union([_lang(b, flags, groups) for b in av[1]]))
        elif o == "AT":
            pass          # anchors do not constrain the matched text
        elif o in ("ASSERT", "ASSERT_NOT"):
            pass          # look-around: over-approximated
        elif o == "GROUPREF":
            out.append(ALL)
        elif o == "ATOMIC_GROUP":
            out.append(_lang(av, flags, groups))
        else:
            raise Unsupported("regex op %s" % o)
    return seq(out)


def _has(items, ops):
    for op, av in items:
        o = str(op)
        if o in ops:
            return True
        if o in ("MAX_REPEAT", "MIN_REPEAT"):
            if _has(av[2], ops):
                return True
        if o == "SUBPATTERN" and _has(av[3], ops):
            return True
        if o == "BRANCH" and any(_has(b, ops) for b in av[1]):
            return True
    return False


class Pattern(object):
    def __init__(self, pat, flags=0):
        self.pat = pat
        self.flags = flags if isinstance(flags, int) else 0
        self.tree = None
        if isinstance(pat, str):
            try:
                self.tree = sre_parse.parse(pat, self.flags)
            except Exception as e:
                raise Unsupported("regex %r: %s" % (pat, e))
            self.flags = self.tree.state.flags
            self.groups = {}
            self.lang = _lang(self.tree, self.flags, self.groups)
            self.names = dict(self.tree.state.groupdict)
            self.exact = not _has(self.tree, (
                "ASSERT", "ASSERT_NOT", "GROUPREF", "AT"))

    def get_attr(self, ex, name):
        if name == "pattern":
            return self.pat
        return BuiltinM(name, self)

    def method(self, ex, name, args, kwargs):
        if self.tree is None:
            raise Unsupported("symbolic regular expression")
        s = ex.resolve_any(args[0]) if name not in ("sub",) else args
        if name in ("match", "search", "fullmatch"):
            ex.trusted.add("re.%s: span in bounds, text in the language of "
                           "the pattern" % name)
            if isinstance(s, str) and len(args) == 1:
                m = getattr(_re.compile(self.pat, self.flags), name)(s)
                return None if m is None else ConcMatch(m)
            pos = iv(ex.resolve_any(args[1])) if len(args) > 1 else \
                z3.IntVal(0)
            s = sv(s)
            if name == "search" and len(args) == 1 and self.is_nonspace():
                # exact: the first character that is no white space
                from .models import LEADWS, lead_facts
                a = lead_facts(ex, s)
                if ex.branch(a == ex.length(s)):
                    return None
                return SymMatch(ex, self, s, a, a + 1)
            n = z3.Length(s)
            some = ex.fresh("bool", "matched")
            if not ex.branch(some):
                self.no_match(ex, s, pos, name)
                return None
            a, b = ex.fresh("int", "mstart"), ex.fresh("int", "mend")
            ex.assume(z3.And(pos <= a, 0 <= a, a <= b, b <= n))
            if name in ("match", "fullmatch") or self.anchored():
                ex.assume(a == pos)
            if name == "fullmatch":
                ex.assume(b == n)
            elif self.end_anchored():
                ex.assume(z3.Or(b == n, z3.And(
                    b == n - 1, substr(s, b, 1) == "\n")))
            m = SymMatch(ex, self, s, a, b)
            if not self.flags & _re.A and any(
                    space_item(x) for x in self.tree):
                m.parts(ex)
            else:
                ex.assume(z3.InRe(sl(s, a, b), self.lang))
            return m
        if name == "sub" and len(args) >= 2:
            if all(isinstance(x, str) for x in args[:2]):
                return _re.sub(self.pat, args[0], args[1], flags=self.flags)
            h = ex.spec_state.get("re_sub")
            if h:
                r = h(ex, self, args)
                if r is not NotImplemented:
                    return r
        h = ex.spec_state.get("re_method")
        if h:
            r = h(ex, self, name, args)
            if r is not NotImplemented:
                return r
        raise Unsupported("re.%s on symbolic input" % name)

    def is_nonspace(self):
        if len(self.tree) != 1 or self.flags & _re.A:
            return False
        op, av = self.tree[0]
        if str(op) != "IN":
            return False
        k = [(str(a), str(b)) for a, b in av]
        return k == [("NEGATE", "None"), ("CATEGORY", "CATEGORY_SPACE")] or \
            k == [("CATEGORY", "CATEGORY_NOT_SPACE")]

    def anchored(self):
        if not len(self.tree):
            return False
        op, av = self.tree[0]
        return str(op) == "AT" and str(av) in ("AT_BEGINNING",
                                               "AT_BEGINNING_STRING") and \
            not self.flags & _re.M

    def end_anchored(self):
        if not len(self.tree):
            return False
        op, av = self.tree[-1]
        return str(op) == "AT" and str(av) == "AT_END" and \
            not self.flags & _re.M

    def no_match(self, ex, s, pos, name):
        """when the pattern is exactly a language, absence is informative"""
        if name == "search" and self.exact and not self.anchored():
            pass
        core_items = [x for x in self.tree if str(x[0]) != "AT"]
        if len(core_items) == len(self.tree) and self.exact and \
                name == "fullmatch":
            ex.assume(z3.Not(z3.InRe(s, self.lang)))
        if self.anchored() and self.end_anchored() and not _has(
                core_items, ("ASSERT", "ASSERT_NOT", "GROUPREF", "AT")):
            ex.assume(z3.Not(z3.InRe(s, self.lang)))


class ConcMatch(object):
    def __init__(self, m):
        self.m = m

    def get_attr(self, ex, name):
        return BuiltinM(name, self)

    def getitem(self, ex, i):
        return self.m[i]

    def method(self, ex, name, args, kwargs):
        if name in ("group", "groups", "start", "end", "span"):
            return getattr(self.m, name)(*args)
        if name == "groupdict":
            return ex.models.from_py(ex, self.m.groupdict())
        raise Unsupported("match.%s" % name)


def space_item(item):
    """\\s* or \\s+, possibly in a group"""
    op, av = item
    if str(op) == "SUBPATTERN":
        return len(av[3]) == 1 and not av[1] and space_item(av[3][0])
    if str(op) == "MAX_REPEAT" and av[1] == sre_c.MAXREPEAT and len(
            av[2]) == 1:
        op2, av2 = av[2][0]
        if str(op2) == "IN":
            return [(str(x), str(y)) for x, y in av2] == [
                ("CATEGORY", "CATEGORY_SPACE")]
    return False


class SymMatch(object):
    def __init__(self, ex, pat, s, a, b):
        self.pat, self.s, self.a, self.b = pat, s, a, b
        self.g = {}

    def parts(self, ex):
        """the items of the pattern match one after the other"""
        from .models import ALLWS
        pos = self.a
        items = [x for x in self.pat.tree
                 if str(x[0]) not in ("AT", "ASSERT", "ASSERT_NOT")]
        for i, (op, av) in enumerate(items):
            end = self.b if i == len(items) - 1 else ex.fresh("int", "item")
            ex.assume(z3.And(pos <= end, end <= self.b))
            t = sl(self.s, pos, end)
            if space_item((op, av)):
                ex.assume(ALLWS(t))
                while str(op) == "SUBPATTERN":
                    if av[0] is not None:
                        self.g[av[0]] = (t, pos, end)
                    op, av = av[3][0]
                if av[0]:
                    ex.assume(end - pos >= av[0])
            else:
                if str(op) == "SUBPATTERN" and av[0] is not None:
                    self.g[av[0]] = (t, pos, end)
                ex.assume(z3.InRe(t, _lang([(op, av)], self.pat.flags, {})))
                if str(op) in ("LITERAL", "SUBPATTERN"):
                    ex.spec_state.setdefault("parts", []).append(
                        (self.s, pos, end))
                if str(op) in ("LITERAL", "ANY", "IN", "NOT_LITERAL"):
                    ex.assume(end == pos + 1)
            pos = end

    def get_attr(self, ex, name):
        return BuiltinM(name, self)

    def truth(self, ex):
        return True

    def group(self, ex, i):
        if i == 0:
            return sl(self.s, self.a, self.b), self.a, self.b
        if isinstance(i, str):
            if i not in self.pat.names:
                ex.raise_("IndexError")
            i = self.pat.names[i]
        if i not in self.pat.groups:
            ex.raise_("IndexError")
        if i not in self.g:
            opt = group_optional(self.pat.tree, i)
            if opt:
                present = ex.fresh("bool", "grp")
                if not ex.branch(present):
                    self.g[i] = (None, -1, -1)
                    return self.g[i]
            a, b = ex.fresh("int", "gs"), ex.fresh("int", "ge")
            ex.assume(z3.And(self.a <= a, a <= b, b <= self.b))
            t = sl(self.s, a, b)
            ex.assume(z3.InRe(t, self.pat.groups[i]))
            self.g[i] = (t, a, b)
            self.adjacent(ex)
        return self.g[i]

    def adjacent(self, ex):
        """top level groups of a concatenation are adjacent"""
        items = [x for x in self.pat.tree if str(x[0]) != "AT"]
        if all(str(op) == "SUBPATTERN" and av[0] is not None
               for op, av in items):
            ids = [av[0] for op, av in items]
            prev = self.a
            for k, gid in enumerate(ids):
                if gid not in self.g:
                    prev = None
                    continue
                t, a, b = self.g[gid]
                if prev is not None:
                    ex.assume(a == prev)
                prev = b
                if k == len(ids) - 1:
                    ex.assume(b == self.b)

    def getitem(self, ex, i):
        return self.group(ex, i)[0]

    def method(self, ex, name, args, kwargs):
        if name == "group":
            if not args:
                args = [0]
            if len(args) == 1:
                return self.group(ex, args[0])[0]
            return tuple(self.group(ex, i)[0] for i in args)
        if name == "start":
            return self.group(ex, args[0] if args else 0)[1]
        if name == "end":
            return self.group(ex, args[0] if args else 0)[2]
        if name == "span":
            return self.group(ex, args[0] if args else 0)[1:]
        if name == "groups":
            out = tuple(self.group(ex, i)[0]
                        for i in sorted(self.pat.groups))
            return out
        if name == "groupdict":
            from .interp import DictV
            return DictV(ex, {k: self.group(ex, k)[0]
                              for k in self.pat.names})
        raise Unsupported("match.%s" % name)


def group_optional(tree, gid):
    """may group gid be unmatched in a successful match?"""
    def go(items, opt):
        for op, av in items:
            o = str(op)
            if o == "SUBPATTERN":
                if av[0] == gid:
                    return opt
                r = go(av[3], opt)
                if r is not None:
                    return r
            elif o in ("MAX_REPEAT", "MIN_REPEAT"):
                r = go(av[2], opt or av[0] == 0)
                if r is not None:
                    return r
            elif o == "BRANCH":
                for b in av[1]:
                    r = go(b, True)
                    if r is not None:
                        return r
            elif o in ("ASSERT", "ASSERT_NOT"):
                r = go(av[1], True)
                if r is not None:
                    return r
        return None
    r = go(tree, False)
    return bool(r)
