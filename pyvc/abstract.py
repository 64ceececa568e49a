"""A coarser theory for the same verification conditions: strings become an
uninterpreted sort, string operations uninterpreted functions, with the facts
about lengths, substrings and concatenations that occur as axioms.  Every
model of a formula gives a model of its translation, so `unsat` here means
unsat there; `sat` says nothing."""
import z3

from pyvc import core
from pyvc.core import Int, Bool, Str, Val, Lst, pystr

S = z3.DeclareSort("Text")
_V = z3.Datatype("AVal")
_V.declare("AVNone")
_V.declare("AVStr", ("avs", S))
_V.declare("AVInt", ("avi", Int))
_V.declare("AVBool", ("avb", Bool))
_V.declare("AVRef", ("avr", Int))
_V.declare("AVTag", ("avt", Int))
_V.declare("AVSub", ("avh", S), ("avw", S))
AVal = _V.create()
_L = z3.Datatype("ALst")
_L.declare("anil")
_L.declare("asnoc", ("aprev", _L), ("alast", AVal))
ALst = _L.create()
CAT = z3.Function("a.cat", S, S, S)
SUB = z3.Function("a.sub", S, Int, Int, S)
LEN = z3.Function("a.len", S, Int)

_SORT = {Str.get_id(): S, Val.get_id(): AVal, Lst.get_id(): ALst}
_MAP = {}
for old, new in ((Val, AVal), (Lst, ALst)):
    for i in range(old.num_constructors()):
        _MAP[old.constructor(i).get_id()] = new.constructor(i)
        _MAP[old.recognizer(i).get_id()] = new.recognizer(i)
        for j in range(old.constructor(i).arity()):
            _MAP[old.accessor(i, j).get_id()] = new.accessor(i, j)

_KEEP, _T, _LIT, _DECL, _SIDE = [], {}, {}, {}, {}


class Skip(Exception):
    pass


def sort(s):
    return _SORT.get(s.get_id(), s)


def lit(text):
    r = _LIT.get(text)
    if r is None:
        r = _LIT[text] = z3.Const("a.lit%d" % len(_LIT), S)
        n = len(text)
        _SIDE[r.get_id()] = ([LEN(r) == n], ())
    return r


def concat(parts):
    flat = []
    for p in parts:
        if p.decl().eq(CAT):
            while p.decl().eq(CAT):
                flat.append(p.arg(0))
                p = p.arg(1)
        flat.append(p)
    out = []
    for p in flat:
        t = _TEXT.get(p.get_id())
        if t == "":
            continue
        if t is not None and out and _TEXT.get(out[-1].get_id()) is not None:
            out[-1] = litt(_TEXT[out[-1].get_id()] + t)
        else:
            out.append(p)
    if not out:
        return litt("")
    r = out[-1]
    for p in reversed(out[:-1]):
        r = CAT(p, r)
        if r.get_id() not in _SIDE:
            ax = [LEN(r) == LEN(r.arg(0)) + LEN(r.arg(1))]
            a, b = r.arg(0), r.arg(1)
            h = b.arg(0) if b.decl().eq(CAT) else b
            deps = [a, b]
            if a.decl().eq(SUB) and h.decl().eq(SUB) and \
                    a.arg(0).eq(h.arg(0)):
                s, p1, n1 = a.children()
                _, p2, n2 = h.children()
                m = sub(s, z3.simplify(p1), z3.simplify(n1 + n2))
                w = m if h is b else concat([m, b.arg(1)])
                ax.append(z3.Implies(z3.And(
                    p1 >= 0, n1 >= 0, n2 >= 0, p2 == p1 + n1,
                    p2 + n2 <= LEN(s)), r == w))
                deps.append(w)
            _SIDE[r.get_id()] = (ax, deps)
    _KEEP.append(r)
    return r


_TEXT = {}


def litt(text):
    r = lit(text)
    _TEXT[r.get_id()] = text
    return r


def sub(s, a, n):
    r = SUB(s, a, n)
    if r.get_id() not in _SIDE:
        L = LEN(s)
        e = litt("")
        _SIDE[r.get_id()] = ([
            z3.Implies(z3.And(a >= 0, n >= 0, a + n <= L), LEN(r) == n),
            z3.Implies(z3.And(a >= 0, n > 0, a < L, a + n > L),
                       LEN(r) == L - a),
            z3.Implies(z3.Or(a < 0, n <= 0, a >= L), r == e),
            z3.Implies(z3.And(a == 0, n >= L), r == s)], (s, e))
        _KEEP.append(r)
    return r


def tr(e):
    """the translation of a term"""
    todo = [e]
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i in _T:
            todo.pop()
            continue
        if not z3.is_app(x):
            raise Skip()
        kids = [] if z3.is_string_value(x) or x.sort().kind() == \
            z3.Z3_RE_SORT else [c for c in x.children()
                                if c.sort().kind() != z3.Z3_RE_SORT]
        miss = [c for c in kids if c.get_id() not in _T]
        if miss:
            todo.extend(miss)
            continue
        todo.pop()
        _KEEP.append(x)
        _T[i] = one(x, [_T[c.get_id()] for c in kids])
    return _T[e.get_id()]


def one(x, kids):
    if z3.is_string_value(x):
        return litt(pystr(x))
    d = x.decl()
    k = d.kind()
    if k == z3.Z3_OP_SEQ_LENGTH:
        return LEN(kids[0])
    if k == z3.Z3_OP_SEQ_EXTRACT:
        return sub(kids[0], z3.simplify(kids[1]), z3.simplify(kids[2]))
    if k == z3.Z3_OP_SEQ_AT:
        return sub(kids[0], z3.simplify(kids[1]), z3.IntVal(1))
    if k == z3.Z3_OP_SEQ_CONCAT:
        return concat(kids)
    if k == z3.Z3_OP_EQ:
        return kids[0] == kids[1]
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*kids)
    if k == z3.Z3_OP_ITE:
        return z3.If(*kids)
    if k in (z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR):
        f = _MAP.get(d.get_id())
        if f is None:
            raise Skip()
        return f(*kids) if kids else f()
    if k in (z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER):
        dt = x.arg(0).sort()
        for i in range(dt.num_constructors()):
            if d.eq(dt.recognizer(i)):
                return (AVal if dt.eq(Val) else ALst).recognizer(i)(*kids)
        raise Skip()
    strs = [a for a in [x] + x.children() if a.sort().get_id() in _SORT]
    if k == z3.Z3_OP_UNINTERPRETED or strs:
        name = d.name() if k == z3.Z3_OP_UNINTERPRETED else "a." + d.name()
        for c in x.children():
            if c.sort().kind() == z3.Z3_RE_SORT:
                _KEEP.append(c)
                name += "/re%d" % c.get_id()
        key = (name, tuple(c.sort().get_id() for c in kids))
        if not kids:
            f = _DECL.get(key)
            if f is None:
                f = _DECL[key] = z3.Const(name, sort(x.sort()))
            return f
        f = _DECL.get(key)
        if f is None:
            f = _DECL[key] = z3.Function(
                name, *([c.sort() for c in kids] + [sort(x.sort())]))
        return f(*kids)
    if not kids:
        return x
    return d(*kids)


def conjuncts(fs):
    out, stack = [], list(reversed(fs))
    while stack:
        f = stack.pop()
        if z3.is_and(f):
            stack.extend(reversed(f.children()))
        else:
            out.append(f)
    return out


class Query(object):
    """One verification condition.  Splits of ranges are added in the order
    that a candidate model gives the positions, one chain per range."""

    def __init__(self, fs, rounds):
        self.rounds = rounds
        self.points, self.ranges, self.seen = {}, {}, set()
        self.lits = {}
        self.asked = set()
        self.solver = z3.Solver()
        self.sided, self.litted = set(), []
        self.terms = []
        fs = conjuncts(fs)
        for f in fs:
            for i, kind, e, x in core._relevant(f):
                if kind == "ext" and e.arg(1).sort() == Int:
                    self.point(e.arg(0), e.arg(1))
                    self.point(e.arg(0), core.end_of(e))
        self.add(fs)

    def point(self, s, p):
        self.points.setdefault(s.get_id(), {})[p.get_id()] = p

    def add(self, fs):
        """the formulas and the definitions of what occurs in them"""
        for f in fs:
            self.assert_(f)
        todo = fs
        for rnd in range(self.rounds):
            new = []
            for f in todo:
                for i, kind, e, x in core._relevant(f):
                    if (i, rnd == 0) in self.seen or (i, True) in self.seen:
                        continue
                    if kind == "lit":
                        self.lits[x] = x
                        continue
                    if kind == "ext":
                        self.seen.add((i, True))
                        new.extend(core.memo(("ext", i), (e,),
                                             lambda: core._ext_axiom(e)))
                        continue
                    if x.name in core.OPAQUE:
                        continue
                    if isinstance(x, core.SufRec) and rnd >= x.depth and \
                            not z3.is_string_value(e.arg(0)):
                        continue
                    self.seen.add((i, True))
                    t = e.arg(0)
                    if isinstance(x, core.Hom):
                        new.extend(x.instances(t, {"lits": self.lits}))
                        if t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
                            self.ranges[i] = (x, t)
                    else:
                        new.extend(x.instances(t, {}))
            if not new:
                break
            for f in new:
                self.assert_(f)
            todo = new

    def assert_(self, f):
        try:
            g = tr(f)
        except Skip:
            return
        self.solver.add(g)
        stack = [g]
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in self.sided:
                continue
            self.sided.add(i)
            stack.extend(e.children())
            if e.sort().eq(S):
                facts = [LEN(e) >= 0]
                if i in _TEXT:
                    # a literal differs from all others
                    facts += [e != o for o in self.litted]
                    self.litted.append(e)
                else:
                    facts.append((LEN(e) == 0) == (e == litt("")))
                ax = _SIDE.get(i)
                if ax:
                    facts += ax[0]
                self.solver.add(*facts)
                stack.extend(facts)

    def refine(self, m):
        """split every range at the positions inside it, in model order"""
        val = {}

        def at(p):
            i = p.get_id()
            if i not in val:
                try:
                    v = m.eval(tr(p), True)
                    val[i] = v.as_long() if z3.is_int_value(v) else None
                except Skip:
                    val[i] = None
            return val[i]
        new = []
        for i, (h, t) in list(self.ranges.items()):
            s, a, ln = t.children()
            b = core.end_of(t)
            va, vb = at(a), at(b)
            if va is None or vb is None or vb - va < 2 or va < 0:
                continue
            inner = {}
            for p in self.points.get(s.get_id(), {}).values():
                v = at(p)
                if v is not None and va < v < vb:
                    inner.setdefault(v, p)
            if not inner:
                continue
            chain = [a] + [inner[v] for v in sorted(inner)] + [b]
            key = (i,) + tuple(p.get_id() for p in chain)
            if key in self.asked:
                continue
            self.asked.add(key)
            acc = None
            cond = [0 <= a, b <= z3.Length(s)]
            for x, y in zip(chain, chain[1:]):
                cond.append(x <= y)
                piece = h.f(core.sl(s, x, y))
                acc = piece if acc is None else h.op(acc, piece)
            new.append(z3.Implies(z3.And(cond), h.f(t) == acc))
        return new

    def decide(self, seconds):
        core.limit(self.solver, seconds)
        for _ in range(25):
            r = self.solver.check()
            if r != z3.sat:
                return r
            new = self.refine(self.solver.model())
            if not new:
                return r
            self.add(new)
        return z3.unknown


def check(fs, seconds, rounds=3):
    return Query(fs, rounds).decide(seconds)
