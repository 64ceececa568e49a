"""Logic layer of pyvc: sorts, spec functions, instantiation and the solver
portfolio.  Nothing in here knows about Python semantics."""
import os
import subprocess
import tempfile
import time

import z3

Int, Bool, Str = z3.IntSort(), z3.BoolSort(), z3.StringSort()

_V = z3.Datatype("Val")
_V.declare("VNone")
_V.declare("VStr", ("vs", Str))
_V.declare("VInt", ("vi", Int))
_V.declare("VBool", ("vb", Bool))
_V.declare("VRef", ("vr", Int))
_V.declare("VTag", ("vt", Int))
_V.declare("VSub", ("vh", Str), ("vw", Str))     # ghost: what became what
Val = _V.create()
_L = z3.Datatype("Lst")
_L.declare("nil")
_L.declare("snoc", ("prev", _L), ("last", Val))
Lst = _L.create()

NIL = Lst.nil


def snoc(l, v):
    return Lst.snoc(l, v)


def sv(s):
    return z3.StringVal(s) if isinstance(s, str) else s


def iv(i):
    return z3.IntVal(i) if isinstance(i, int) else i


def esc(s):
    return s


def substr(s, a, n):
    s, a, n = sv(s), z3.simplify(iv(a)), z3.simplify(iv(n))
    while s.decl().kind() == z3.Z3_OP_SEQ_CONCAT and z3.is_int_value(a) and \
            z3.is_string_value(s.arg(0)):
        L = len(pystr(s.arg(0)))
        if a.as_long() < L:
            break
        s = cat(*s.children()[1:])
        a = z3.IntVal(a.as_long() - L)
    return z3.SubString(s, a, n)


def sl(s, a, b):
    """s[a:b] for 0<=a, 0<=b (python clamping == SMT clamping there)"""
    return substr(s, a, iv(b) - iv(a))


def suffix(s, a):
    s = sv(s)
    return substr(s, a, z3.Length(s) - iv(a))


def prefix(s, b):
    return substr(s, 0, b)


def cat(*xs):
    xs = [sv(x) for x in xs]
    xs = [x for x in xs
          if not (z3.is_string_value(x) and x.as_string() == "")]
    if not xs:
        return z3.StringVal("")
    if len(xs) == 1:
        return xs[0]
    return z3.Concat(*xs)


def pystr(t):
    """z3 string literal -> python str"""
    s = t.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


# ---------------------------------------------------------------- spec funcs
_MEMO = {}


def memo(key, keep, make):
    """terms are hash-consed: an instance is built once per (function, term)"""
    r = _MEMO.get(key)
    if r is None:
        r = _MEMO[key] = (make(), keep)
    return r[0]


def end_of(t):
    """offset one past the end of substr(s, a, n)"""
    return memo(("end", t.get_id()), (t,),
                lambda: z3.simplify(t.arg(1) + t.arg(2)))


class Hom(object):
    """A spec function str -> M that is a monoid homomorphism, defined by
    recursion on the last character:
        H("") = unit ;  H(x + c) = H(x) . h(c)
    `char(c)` gives h on a term of length 1; `pychar(str)` gives it on a
    concrete character.  The homomorphism law H(a+b) = H(a).H(b) used as an
    instantiation schema is itself discharged by induction (`law_vcs`)."""
    registry = {}
    nonneg = False
    opaque = False      # single characters stay H(c) unless they are literals

    def __init__(self, name, sort, unit, op, char, py):
        self.name, self.sort, self.unit, self.op = name, sort, unit, op
        self.char, self.py = char, py
        self.f = z3.Function(name, Str, sort)
        Hom.registry[self.f.name()] = self

    def __call__(self, t):
        return self.f(sv(t))

    def lift(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, str):
            return z3.StringVal(v)
        return v

    def law_vcs(self):
        """Induction proof of the homomorphism law from the definition."""
        a, b, c = z3.Strings("a b c")
        H = self.f
        u = self.lift(self.unit)
        base = ([H(a) == H(a)], self.op(H(a), u) == H(a))
        step = ([z3.Length(c) == 1,
                 H(z3.Concat(a, b)) == self.op(H(a), H(b)),      # IH
                 H(z3.Concat(b, c)) == self.op(H(b), self.char(c)),
                 H(z3.Concat(a, b, c)) ==
                 self.op(H(z3.Concat(a, b)), self.char(c))],
                H(z3.Concat(a, b, c)) == self.op(H(a), H(z3.Concat(b, c))))
        return [("%s.hom.base" % self.name,) + base,
                ("%s.hom.step" % self.name,) + step]

    def instances(self, t, points):
        H, t0 = self.f, t
        if z3.is_string_value(t):
            return memo((self.name, t.get_id()), (t,), lambda: [
                H(t) == self.lift(self.py(pystr(t)))])
        ax = list(memo((self.name, t.get_id()), (t,), lambda: self.base(t)))
        ext = t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT
        k = None
        if ext and z3.is_int_value(t.arg(2)):
            k = t.arg(2).as_long()
        for lit in sorted(points.get("lits", ())):
            if len(lit) == 1 and self.opaque or 1 < len(lit) == k:
                ax.append(memo((self.name, t.get_id(), lit), (t,),
                               lambda: z3.Implies(
                                   t == z3.StringVal(lit),
                                   H(t) == self.lift(self.py(lit)))))
        if ext:
            s, a, ln = t.children()
            b = end_of(t)
            ia, ib = a.get_id(), b.get_id()

            def split(p):
                return z3.Implies(
                    z3.And(0 <= a, a <= p, p <= b, b <= z3.Length(s)),
                    H(t0) == self.op(H(sl(s, a, p)), H(sl(s, p, b))))
            for p in points.get(s.get_id(), ()):
                i = p.get_id()
                if i != ia and i != ib:
                    ax.append(memo((self.name, t.get_id(), i), (t, p),
                                   lambda: split(p)))
            # whole string
            ax.append(memo((self.name, t.get_id(), "w"), (t,),
                           lambda: z3.Implies(
                               z3.And(a == 0, ln == z3.Length(s)),
                               H(t) == H(s))))
            if UNROLL and k is not None and 2 <= k <= 4:
                def unroll():
                    acc = H(substr(s, a, 1))
                    for i in range(1, k):
                        acc = self.op(acc, H(substr(s, a + i, 1)))
                    return z3.Implies(z3.And(0 <= a, b <= z3.Length(s)),
                                      H(t) == acc)
                ax.append(memo((self.name, t.get_id(), "u"), (t,), unroll))
        return ax

    def base(self, t):
        H, n, ax = self.f, z3.Length(t), []
        ax.append(z3.Implies(n == 0, H(t) == self.lift(self.unit)))
        if not self.opaque:
            ax.append(z3.Implies(n == 1, H(t) == self.char(t)))
        if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            parts = t.children()
            acc = H(parts[0])
            for p in parts[1:]:
                acc = self.op(acc, H(p))
            ax.append(H(t) == acc)
        if self.nonneg:
            # by induction on the definition: characters count 0 or 1
            ax.append(H(t) >= 0)
        return ax


def flatmap(name, cases):
    """cases: dict char -> str; every other character maps to itself.  The
    same map is always the same function."""
    cases = {k: v for k, v in cases.items() if k != v}
    key = frozenset(cases.items())
    if key in FLAT:
        return FLAT[key]

    def char(c):
        e = c
        for k, v in cases.items():
            e = z3.If(c == z3.StringVal(k), z3.StringVal(v), e)
        return e

    def py(s):
        return "".join(cases.get(ch, ch) for ch in s)
    h = Hom(name, Str, "", lambda x, y: z3.Concat(x, y), char, py)
    h.cases = cases
    FLAT[key] = h
    return h


FLAT = {}


def flat_after(outer, t):
    """outer(t) for a character map `outer`; on an application H(x) of
    another one it is their composition, itself a character map"""
    if z3.is_app(t) and t.num_args() == 1:
        h = Hom.registry.get(t.decl().name())
        c = getattr(h, "cases", None)
        if c is not None and h.f.eq(t.decl()):
            both = {k: outer.py(c.get(k, k)) for k in set(c) |
                    set(outer.cases)}
            return flat_after(flatmap("%s_then_%s" % (
                h.name, outer.name), both), t.arg(0))
    return outer(t)


def counter(name, ch):
    def char(c):
        return z3.If(c == z3.StringVal(ch), z3.IntVal(1), z3.IntVal(0))
    h = Hom(name, Int, 0, lambda x, y: x + y, char,
            lambda s: s.count(ch))
    h.nonneg = True
    return h


class Scan(object):
    """A spec function over strings defined by recursion on the last
    character:  F("") = unit; F(x+c) = step(F(x), x, c).  Instances are
    produced for prefixes substr(s, a, n): n>0 unfolds the last char."""
    registry = {}

    def __init__(self, name, sort, unit, step, py):
        self.name, self.sort, self.unit, self.step, self.py = (
            name, sort, unit, step, py)
        self.f = z3.Function(name, Str, sort)
        Scan.registry[self.f.name()] = self

    def __call__(self, t):
        return self.f(sv(t))

    lift = Hom.lift

    def instances(self, t, points):
        F, ax = self.f, []
        if z3.is_string_value(t):
            return [F(t) == self.lift(self.py(pystr(t)))]
        ax.append(z3.Implies(z3.Length(t) == 0, F(t) == self.lift(self.unit)))
        if t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            s, a, ln = t.children()
            b = z3.simplify(a + ln)
            prev = sl(s, a, b - 1)
            c = substr(s, z3.simplify(b - 1), 1)
            ax.append(z3.Implies(
                z3.And(a >= 0, ln > 0, b <= z3.Length(s)),
                F(t) == self.step(F(prev), prev, c)))
            for p in points.get(s.get_id(), ()):
                if p.eq(b):
                    continue
                ax.append(z3.Implies(p == b, F(t) == F(sl(s, a, p))))
        elif t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            parts = t.children()
            c = parts[-1]
            prev = cat(*parts[:-1])
            ax.append(z3.Implies(z3.Length(c) == 1,
                                 F(t) == self.step(F(prev), prev, c)))
            ax.append(z3.Implies(z3.Length(c) == 0, F(t) == F(prev)))
        return ax


class LHom(object):
    """Spec function Lst -> M by recursion on snoc:
       F(nil)=unit; F(snoc(l,v)) = op(F(l), elem(v))"""
    registry = {}

    def __init__(self, name, sort, unit, op, elem):
        self.name, self.sort, self.unit, self.op, self.elem = (
            name, sort, unit, op, elem)
        self.f = z3.Function(name, Lst, sort)
        LHom.registry[self.f.name()] = self

    def __call__(self, t):
        return self.f(t)

    lift = Hom.lift

    def instances(self, t, points):
        F = self.f
        ax = []
        if t.decl().name() == "snoc":
            l, v = t.children()
            ax.append(F(t) == self.op(F(l), self.elem(v)))
        elif t.decl().name() == "nil":
            ax.append(F(t) == self.lift(self.unit))
        else:
            ax.append(z3.Implies(t == NIL, F(t) == self.lift(self.unit)))
        return ax


def vstr(v):
    """string payload of a Val term (\"\" for non strings)"""
    v = z3.simplify(v)
    if v.decl().name() == "VStr":
        return v.arg(0)
    return z3.If(Val.is_VStr(v), Val.vs(v), z3.StringVal(""))


JOIN = LHom("join", Str, "", lambda a, b: z3.Concat(a, b), vstr)
LNTH = z3.Function("list_item", Lst, Int, Val)
LLEN = LHom("llen", Int, 0, lambda a, b: a + b, lambda v: z3.IntVal(1))
CNT_NL = counter("count_nl", "\n")

class SufRec(object):
    """A spec function defined by recursion on the front of the string:
    F(t) = body(t, k -> F(t[k:])).  Unfolded once per application that occurs
    in the verification condition itself."""
    registry = {}
    depth = 1

    def __init__(self, name, sort, body, py, unit=None):
        self.name, self.sort, self.body, self.py = name, sort, body, py
        self.unit = unit
        self.f = z3.Function(name, Str, sort)
        SufRec.registry[name] = self

    def __call__(self, t):
        return self.f(sv(t))

    lift = Hom.lift

    def instances(self, t, points):
        F = self.f
        if z3.is_string_value(t):
            return [F(t) == self.lift(self.py(pystr(t)))]
        ax = []
        if t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            s, a, ln = t.children()

            def rest(k):
                return F(substr(s, a + k, ln - k))

            def at(k, n=1):
                return substr(s, a + k, n)
            ax.append(z3.Implies(z3.And(a == 0, ln == z3.Length(s)),
                                 F(t) == F(s)))
            ok = z3.And(a >= 0, a + ln <= z3.Length(s))
            ln_ = ln
        else:
            def rest(k):
                return F(substr(t, k, z3.Length(t) - k))

            def at(k, n=1):
                return substr(t, k, n)
            ok = z3.BoolVal(True)
            ln_ = z3.Length(t)
            if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT and \
                    z3.is_string_value(t.arg(0)):
                lit = pystr(t.arg(0))
                tail = cat(*t.children()[1:])

                def rest(k, lit=lit, tail=tail):
                    if k <= len(lit):
                        return F(cat(lit[k:], tail))
                    return F(substr(t, k, z3.Length(t) - k))
        ax.append(z3.Implies(ok, F(t) == self.body(ln_, at, rest)))
        return ax


# ------------------------------------------------------------- saturation


def _fn_of(nm):
    return (Hom.registry.get(nm) or Scan.registry.get(nm) or
            LHom.registry.get(nm) or SufRec.registry.get(nm))


def _relevant(f):
    """the substrings, literals and spec function applications in a formula"""
    def make():
        seen, stack, out = set(), [f], []
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_string_value(e):
                w = e.as_string()
                if w and (len(w) <= 4 or len(w) <= 40 and w[0] == "\\"):
                    w = pystr(e)
                    if len(w) <= 4:
                        out.append((i, "lit", e, w))
                continue
            if z3.is_app(e):
                k = e.decl().kind()
                if k == z3.Z3_OP_SEQ_EXTRACT:
                    if e.arg(1).sort() == Int:
                        out.append((i, "ext", e, e.arg(0).get_id()))
                elif k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1:
                    fn = _fn_of(e.decl().name())
                    if fn is not None:
                        out.append((i, "app", e, fn))
            stack.extend(e.children())
        return out
    return memo(("rel", f.get_id()), (f,), make)


MAXPOINTS = 8
ROUNDS = 3
ABSTRACT = not os.environ.get('PYVC_NOABS')
OPAQUE = set()       # spec functions whose definition is not needed
TRUNCATED = [False]
DROPPED = [False]    # some positions were left out
BIGCAP = 2500
UNROLL = False       # H(s[a:a+k]) for small constant k, character by character


def saturate(formulas, rounds=3, cap=400, maxpoints=None, goal=None):
    """Definitional instances for every spec-function application present,
    or only for those of the goal."""
    axioms, done = [], set()
    TRUNCATED[0] = DROPPED[0] = False
    maxpoints = maxpoints or MAXPOINTS
    todo = list(formulas)
    points, have = {}, set()
    mine = None if goal is None else {r[0] for r in _relevant(goal)}
    for rnd in range(rounds):
        terms, seen = [], set()
        for f in (reversed(todo) if rnd == 0 else todo):
            # the goal and the latest facts first: their positions count
            for r in _relevant(f):
                if r[0] not in seen:
                    seen.add(r[0])
                    terms.append(r)
        new_apps = []
        for i, kind, e, x in terms:
            if kind == "lit":
                points.setdefault("lits", set()).update((x,), x)
            elif kind == "ext":
                lst = points.setdefault(x, [])
                for p in (e.arg(1), end_of(e)):
                    if (x, p.get_id()) not in have:
                        if len(lst) >= maxpoints:
                            DROPPED[0] = True
                            continue
                        have.add((x, p.get_id()))
                        lst.append(p)
            else:
                if isinstance(x, SufRec) and rnd >= x.depth and \
                        not z3.is_string_value(e.arg(0)):
                    continue
                if i not in done:
                    if rnd == 0 and mine is not None and i not in mine and \
                            not z3.is_string_value(e.arg(0)):
                        continue
                    done.add(i)
                    if x.name not in OPAQUE:
                        new_apps.append((x, e))
        fresh = []
        for fn, e in new_apps:
            fresh.extend(fn.instances(e.arg(0), points))
        for i, kind, e, x in terms:
            if kind == "ext" and i not in done:
                done.add(i)
                r = memo(("ext", i), (e,), lambda: _ext_axiom(e))
                if r:
                    fresh.extend(r)
        if not fresh:
            break
        axioms.extend(fresh)
        todo = fresh
        if len(axioms) > cap:
            TRUNCATED[0] = rnd + 1 < rounds
            break
    return axioms


def light(f):
    """no string operation but lengths of constants"""
    def make():
        stack, seen = [f], set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if not z3.is_app(e):
                return False
            if e.sort() == Str and e.num_args() and \
                    e.decl().kind() != z3.Z3_OP_DT_ACCESSOR:
                return False
            k = e.decl().kind()
            if e.num_args() and e.arg(0).sort() == Str and k not in (
                    z3.Z3_OP_SEQ_LENGTH, z3.Z3_OP_UNINTERPRETED,
                    z3.Z3_OP_EQ, z3.Z3_OP_DT_CONSTRUCTOR):
                return False
            stack.extend(e.children())
        return True
    return memo(("light", f.get_id()), (f,), make)


def _ext_axiom(e):
    """a substring of a concatenation or of a substring"""
    s0, b, m = e.children()
    k = s0.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT:
        ps = s0.children()
        if z3.is_string_value(ps[0]):
            L = len(pystr(ps[0]))
            return [z3.Implies(b >= L, e == substr(
                cat(*ps[1:]), b - L, m))]
        return [z3.Implies(
            z3.And(b >= 0, m >= 0, b + m <= z3.Length(ps[0])),
            e == substr(ps[0], b, m))]
    if k == z3.Z3_OP_SEQ_EXTRACT:
        s1, a, n = s0.children()
        return [z3.Implies(
            z3.And(a >= 0, b >= 0, m >= 0, b + m <= n),
            e == substr(s1, a + b, m))]
    return []


# ------------------------------------------------------------- solving
class Stats(object):
    def __init__(self):
        self.by = {}
        self.time = 0.0
        self.queries = 0

    def add(self, backend, dt):
        self.by[backend] = self.by.get(backend, 0) + 1
        self.time += dt
        self.queries += 1


STATS = Stats()


def limit(solver, seconds):
    """a deterministic resource limit; the time limit is only a safety net"""
    solver.set("rlimit", int(seconds * 2000000))
    solver.set("timeout", int(seconds * 5000))


def _cli(cmd, text, timeout):
    fd, path = tempfile.mkstemp(suffix=".smt2", prefix="pyvc_")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(text)
        try:
            r = subprocess.run(cmd + [path], capture_output=True, text=True,
                               timeout=timeout + 5)
        except subprocess.TimeoutExpired:
            return "unknown"
        w = r.stdout.split()
        return w[0] if w and w[0] in ("sat", "unsat") else "unknown"
    finally:
        os.unlink(path)


def abstract_check(fs, seconds):
    from pyvc import abstract
    return abstract.check(fs, seconds, ROUNDS)


def prove(hyps, goal, fast=2.0, slow=8.0, want_model=False, lite=False):
    """-> (status, backend, model) ; status in proved / refuted / unknown"""
    t0 = time.time()
    if z3.is_true(z3.simplify(goal)):
        STATS.add("simplify", time.time() - t0)
        return "proved", "simplify", None
    ng = z3.Not(goal)
    from pyvc import abstract
    fs = abstract.conjuncts(list(hyps)) + [ng]
    lf = [f for f in fs if light(f)]
    if lf and lf[-1] is ng and len(lf) < len(fs):
        s = z3.Solver()
        limit(s, 0.2)
        s.add(*lf)
        if s.check() == z3.unsat:
            STATS.add("z3-" + z3.get_version_string(), time.time() - t0)
            return "proved", "z3", None
    rounds = ROUNDS
    r = abstract_check(fs, fast) if ABSTRACT else None
    if r == z3.unsat or lite and r == z3.sat:
        STATS.add("z3-" + z3.get_version_string(), time.time() - t0)
        return "proved" if r == z3.unsat else "refuted", "z3", None
    ax = saturate(fs, rounds=rounds)
    trunc, dropped = TRUNCATED[0], DROPPED[0]
    s = z3.Solver()
    limit(s, fast)
    s.add(*fs)
    s.add(*ax)
    r = s.check()
    if r != z3.unsat and trunc:
        # all instances of the spec functions, not only the first ones
        ax = saturate(fs, rounds=rounds, cap=BIGCAP)
        s = z3.Solver()
        limit(s, fast)
        s.add(*fs)
        s.add(*ax)
        r = s.check()
    if r == z3.sat and dropped:
        # no refutation before every position was tried
        s = z3.Solver()
        limit(s, fast)
        s.add(*fs)
        s.add(*saturate(fs, rounds=rounds, cap=BIGCAP,
                        maxpoints=3 * MAXPOINTS))
        r = s.check()
    if r == z3.unsat:
        STATS.add("z3-" + z3.get_version_string(), time.time() - t0)
        return "proved", "z3", None
    model = None
    if r == z3.sat:
        model = s.model()
        STATS.add("z3-" + z3.get_version_string(), time.time() - t0)
        return "refuted", "z3", model
    if slow:
        text = "(set-logic ALL)\n" + s.to_smt2()
        r2 = _cli(["cvc5", "--strings-exp", "--tlimit=%d" % int(slow * 1500)],
                  text, slow * 1.5)
        if r2 == "unsat":
            STATS.add("cvc5", time.time() - t0)
            return "proved", "cvc5", None
        if r2 == "sat":
            STATS.add("cvc5", time.time() - t0)
            return "refuted", "cvc5", None
        limit(s, slow)
        r = s.check()
        if r == z3.unsat:
            STATS.add("z3-" + z3.get_version_string(), time.time() - t0)
            return "proved", "z3", None
        if r == z3.sat:
            STATS.add("z3-" + z3.get_version_string(), time.time() - t0)
            return "refuted", "z3", s.model()
    STATS.add("none", time.time() - t0)
    if os.environ.get("PYVC_DUMP"):
        with open(os.path.join(os.environ["PYVC_DUMP"],
                               "q%d.smt2" % STATS.queries), "w") as f:
            f.write("(set-logic ALL)\n" + s.to_smt2())
        with open(os.path.join(os.environ["PYVC_DUMP"],
                               "q%d.txt" % STATS.queries), "w") as f:
            f.write("\n\n".join(map(str, fs)) + "\n\n=====\n\n" +
                    "\n\n".join(map(str, ax)))
    return "unknown", "none", None
