"""Contract base class, invariant templates, and the per-function runner."""
import os
import time
import traceback

import z3

from . import core
from .core import (Val, Lst, NIL, snoc, sv, iv, sl, substr, suffix, prefix,
                   cat, Str, Int, Bool, JOIN, LLEN)
from .interp import (Exec, World, Unsupported, PathEnd, PyRaise, Obj, ListV,
                     DictV, SetV, SymLst, SymAny, ClassV, FuncV, UNBOUND,
                     LoopState, GenV)
from .models import Models, IterV

REPO = os.environ.get("PYVC_REPO", "/repo")


class Contract(object):
    """One function of /repo under contract.

    module, func  -- where the real code lives
    setup(ex)     -- create symbolic arguments satisfying the precondition;
                     returns (args, kwargs, env)
    ret(ex, env, value)  -- obligations on normal return
    exc(ex, env, r)      -- obligations on an exception (default: forbidden)
    call(ex, args, kwargs) -- use of the contract at call sites
    templates     -- candidate loop invariants special to this contract
    """
    module = None
    func = None
    name = None
    templates = ()
    deps = ()
    allowed_exc = ()
    prop = ()
    soft = False        # a refutation alone is no alarm

    @property
    def callable_(self):
        return type(self).call is not Contract.call

    @property
    def qual(self):
        return "%s.%s" % (self.module, self.func)

    def setup(self, ex):
        raise NotImplementedError

    def ret(self, ex, env, value):
        pass

    def exc(self, ex, env, r):
        n = r.name()
        ex.require("%s: no %s escapes" % (self.label(), n),
                   n in self.allowed_exc)

    def label(self):
        return self.name or self.func

    def call(self, ex, args, kwargs):
        raise Unsupported("contract of %s has no call rule" % self.qual)

    def run(self, ex):
        """one path"""
        fn = ex.find_func(self.module, self.func)
        args, kwargs, env = self.setup(ex)
        try:
            v = ex.call_func(fn, list(args), dict(kwargs))
        except PyRaise as r:
            self.exc(ex, env, r)
            ex.cover()
            return
        self.ret(ex, env, v)
        ex.cover()


def bound_args(ex, fn, args, kwargs):
    """actuals by parameter name, for call rules"""
    from .interp import Frame
    fr = Frame(ex, fn.module)
    ex.bind_args(fn, fr, args, kwargs)
    return fr.vars


# --------------------------------------------------------------- templates
def t_int(ex, st):
    """bounds and order between integers and string lengths"""
    out = []
    ints = st.locs(lambda v: ex.is_int(v))
    strs = st.consts_str()
    for loc in ints:
        out.append(("%s>=0" % (loc,), lambda s, l=loc: as_int(s, l) >= 0))
        e = st.entry.get(loc)
        if e is not None and ex.is_int(e):
            out.append(("%s>=entry" % (loc,),
                        lambda s, l=loc, e=e: as_int(s, l) >= iv(e)))
            out.append(("%s<=entry" % (loc,),
                        lambda s, l=loc, e=e: as_int(s, l) <= iv(e)))
            out.append(("%s==entry" % (loc,),
                        lambda s, l=loc, e=e: as_int(s, l) == iv(e)))
        for k, t in enumerate(strs):
            out.append(("%s<=len%d" % (loc, k),
                        lambda s, l=loc, t=t: as_int(s, l) <= z3.Length(t)))
        for k, c in enumerate(st.consts_int()):
            out.append(("%s<=c%d" % (loc, k),
                        lambda s, l=loc, c=c: as_int(s, l) <= c))
            out.append(("%s>=c%d" % (loc, k),
                        lambda s, l=loc, c=c: as_int(s, l) >= c))
        for l2 in ints:
            if l2 != loc:
                out.append(("%s<=%s" % (loc, l2),
                            lambda s, a=loc, b=l2: as_int(s, a) <=
                            as_int(s, b)))
                out.append(("%s<%s" % (loc, l2),
                            lambda s, a=loc, b=l2: as_int(s, a) <
                            as_int(s, b)))
    return out


def t_kind(ex, st):
    """what kind of value a dynamically typed location holds"""
    out = []
    kinds = [("none", [Val.is_VNone]), ("str", [Val.is_VStr]),
             ("ref", [Val.is_VRef]), ("int", [Val.is_VInt]),
             ("none/ref", [Val.is_VNone, Val.is_VRef]),
             ("none/str", [Val.is_VNone, Val.is_VStr]),
             ("none/int", [Val.is_VNone, Val.is_VInt])]
    for loc in st.info.order:
        if ("any",) not in st.info.writes.get(loc, ()):
            continue
        for n, ks in kinds:
            def c(s, loc=loc, ks=ks):
                v = s.get(loc)
                if v is UNBOUND:
                    return None
                try:
                    t = s.ex.to_val(v)
                except Unsupported:
                    return None
                return z3.Or([k(t) for k in ks])
            out.append(("kind:%s:%s" % (loc, n), c))
    return out


def as_int(s, loc):
    v = s.get(loc)
    if v is UNBOUND or v is None or not s.ex.is_int(v):
        return z3.BoolVal(True) if False else z3.IntVal(0) + z3.Int(
            "undef!%s" % (loc,))
    return iv(v)


def strs_of(st, ex):
    return st.locs(lambda v: ex.is_str(v))


def acc_terms(ex, st):
    """(name, getter) for everything that accumulates text: str locations and
    lists of pieces (their join)"""
    out = []
    for loc in st.info.order:
        v = st.get(loc)
        if v is UNBOUND:
            continue
        if ex.is_str(v):
            out.append(("%s" % (loc,), lambda s, l=loc: sv(s.get(l))
                        if s.ex.is_str(s.get(l)) else None))
        elif loc[0] == "h" and loc[2] == "items":
            out.append(("join%s" % (loc,),
                        lambda s, l=loc: JOIN(lst_of(s, l))))
    return out


def lst_of(s, loc):
    items = s.get(loc)
    if isinstance(items, SymLst):
        return items.term
    t = NIL
    for x in items:
        t = snoc(t, s.ex.to_val(x))
    return t


def positions(ex, st):
    """(name, getter) for integer valued loop state incl. iterators"""
    return [("%s" % (loc,), lambda s, l=loc: as_int(s, l))
            for loc in st.locs(lambda v: ex.is_int(v))]


def list_prefixes(ex, st):
    """`pre` of list iterators"""
    return [("%s" % (loc,), lambda s, l=loc: s.get(l))
            for loc in st.info.order
            if loc[0] == "h" and loc[2] == "pre"]


def mk_acc_is_fn_of_prefix(fns, extra_strs=()):
    """acc == F(s[0:p]) for accumulators acc, positions p, strings s;
    acc == F(pre) for list iterators"""
    def tmpl(ex, st):
        out = []
        for an, ag in acc_terms(ex, st):
            for f in fns:
                if isinstance(f, core.LHom):
                    for pn, pg in list_prefixes(ex, st):
                        out.append(("spec:%s=%s(%s)" % (an, f.name, pn),
                                    lambda s, ag=ag, f=f, pg=pg:
                                    None if ag(s) is None else
                                    ag(s) == f(pg(s))))
                else:
                    for k, t in enumerate(st.consts_str()):
                        for pn, pg in positions(ex, st):
                            out.append((
                                "spec:%s=%s(s%d[:%s])" % (an, f.name, k, pn),
                                lambda s, ag=ag, f=f, pg=pg, t=t:
                                None if ag(s) is None else
                                ag(s) == f(prefix(t, pg(s)))))
        return out
    return tmpl


class Result(object):
    def __init__(self, contract):
        self.contract = contract.label()
        self.qual = contract.qual
        self.status = None       # proved / refuted / unknown / unsupported
        self.obligations = []
        self.reason = None
        self.paths = 0
        self.wall = 0.0
        self.trusted = []
        self.inlined = []
        self.used = []
        self.invariants = 0
        self.backends = {}
        self.solver_time = 0.0
        self.cover = None

    def to_json(self):
        return dict(self.__dict__)


def verify(contract, contracts, root=None, budget=120.0):
    """Verify one contract against the current source."""
    t0 = time.time()
    res = Result(contract)
    core.STATS = core.Stats()
    try:
        world = World(root or REPO)
        core.MAXPOINTS = getattr(contract, "hom_points", 8)
        core.OPAQUE = set(getattr(contract, "opaque", ()))
        core.UNROLL = getattr(contract, "unroll", False)
        core.ROUNDS = getattr(contract, "rounds", 3)
        table = {c.qual if not getattr(c, "class_ctor", False) else
                 "%s.%s" % (c.module, c.class_ctor): c
                 for c in contracts if c is not contract or
                 getattr(c, "recursive", False)}
        if getattr(contract, "no_contracts", ()):
            for q in contract.no_contracts:
                table.pop(q, None)
        ex = Exec(world, table, Models(),
                  templates=[t_int, t_kind] + list(contract.templates),
                  deadline=t0 + budget)
        ex.fast = getattr(contract, "fast", ex.fast)
        ex.int_fast = getattr(contract, "int_fast", 0.4)
        ex.slow = getattr(contract, "slow", ex.slow)
        res.paths = ex.explore(contract.run)
        res.trusted = sorted(ex.trusted)
        res.inlined = sorted(ex.inlined)
        res.used = sorted(ex.used_contracts)
        res.invariants = sum(1 for l in ex.loops.values())
        worst = "proved"
        for o in ex.obligations.values():
            res.obligations.append({
                "name": o.name, "status": o.status, "backend": o.backend,
                "paths": o.count, "detail": o.detail})
            if o.status == "refuted":
                worst = "refuted"
            elif o.status == "unknown" and worst != "refuted":
                worst = "unknown"
        if not res.obligations:
            worst = "unsupported"
            res.reason = "no obligation generated"
        res.cover = ex.covered
        if worst == "proved" and ex.covered is None:
            worst = "unsupported"
            res.reason = "vacuous: no reachable exit under the precondition"
        if worst == "refuted" and getattr(contract, "soft", False):
            worst = "unknown"     # only lemmas about the known shape are there
        res.status = worst
    except Unsupported as e:
        res.status = "unsupported"
        res.reason = str(e)[:300]
    except RecursionError:
        res.status = "unsupported"
        res.reason = "recursion limit"
    except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError,
            ValueError, AssertionError, NotImplementedError) as e:
        res.status = "unsupported"
        res.reason = "engine: %s: %s @ %s" % (
            type(e).__name__, str(e)[:200],
            traceback.format_exc().strip().splitlines()[-3][:160])
        if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc()
    res.wall = time.time() - t0
    res.backends = dict(core.STATS.by)
    res.solver_time = core.STATS.time
    return res


class Lemma(object):
    """a statement about spec functions, proved by the same solvers"""
    name = None
    extra = ()

    def vcs(self):
        raise NotImplementedError


def prove_lemma(lemma, fast=3.0, slow=15.0):
    t0 = time.time()
    core.STATS = core.Stats()

    class C(object):
        qual = lemma.name

        @staticmethod
        def label():
            return lemma.name
    res = Result(C)
    worst = "proved"
    for name, hyps, goal in lemma.vcs():
        st, be, model = core.prove(hyps, goal, fast=fast, slow=slow)
        res.obligations.append({"name": "%s: %s" % (lemma.name, name),
                                "status": st, "backend": be, "paths": 1,
                                "detail": None if st == "proved" else
                                {"goal": str(goal)[:500],
                                 "model": str(model)[:800]}})
        if st != "proved":
            worst = st if worst != "refuted" else worst
    res.status = worst if res.obligations else "unsupported"
    res.wall = time.time() - t0
    res.backends = dict(core.STATS.by)
    res.solver_time = core.STATS.time
    return res


class HomLaws(Lemma):
    """the homomorphism laws of the spec functions used, by induction"""
    name = "lemma.homomorphism-laws"

    def __init__(self, homs):
        self.homs = homs

    def vcs(self):
        for h in self.homs:
            for name, hyps, goal in h.law_vcs():
                yield name, hyps, goal
