"""Symbolic executor for the Python subset used by openformats.

It reads the *current* source of the functions under /repo (ast), and runs
them on symbolic inputs.  Branches are explored depth first by re-execution;
loops over symbolic data are cut at their head by an invariant, which is
inferred Houdini style from candidate templates (every surviving candidate is
proved on entry and preserved by the body, otherwise it is dropped); calls to
functions that carry a contract are replaced by the contract, other repo
functions are executed in place.  Anything outside the subset raises
`Unsupported`, never a wrong answer."""
import ast
import builtins
import os

import z3

from . import core
from .core import (Val, Lst, NIL, snoc, sv, iv, sl, substr, suffix, prefix,
                   cat, Str, Int, Bool, JOIN, LLEN)


FEAS_S = float(os.environ.get("PYVC_FEAS", "0.15"))


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class PyRaise(Exception):
    """A Python exception travelling through the interpreted program."""

    def __init__(self, cls, args=(), obj=None):
        self.cls, self.eargs, self.obj = cls, args, obj

    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name


# ----------------------------------------------------------------- values
class Obj(object):
    def __init__(self, ex, cls):
        self.oid = ex.new_id()
        ex.objs[self.oid] = self
        self.cls = cls
        self.ref = z3.Int("ref!%d" % self.oid)

    def __repr__(self):
        return "<Obj %s %d>" % (getattr(self.cls, "name", self.cls), self.oid)


class ListV(Obj):
    def __init__(self, ex, items=()):
        Obj.__init__(self, ex, "list")
        ex.hset(self, "items", items)


class DictV(Obj):
    def __init__(self, ex, items=None):
        Obj.__init__(self, ex, "dict")
        ex.hset(self, "ditems", items if items is not None else {})


class SetV(Obj):
    def __init__(self, ex, items=()):
        Obj.__init__(self, ex, "set")
        ex.hset(self, "sitems", items)


class SymLst(object):
    """contents of a list of unknown length"""

    def __init__(self, term, elem="any"):
        self.term, self.elem = term, elem


class SymSet(object):
    """contents of a set (or dict domain) of Vals of unknown size: a map
    Val -> Bool"""

    def __init__(self, arr):
        self.arr = arr


class SymMap(object):
    """contents of a str-keyed dict of unknown size"""

    def __init__(self, dom, arr, elem="any"):
        self.dom, self.arr, self.elem = dom, arr, elem


class SymAny(object):
    def __init__(self, term):
        self.term = term


class Opaque(object):
    """A value we know nothing about (only legal where nothing is asked)."""

    def __init__(self, why):
        self.why = why


class FuncV(object):
    def __init__(self, node, module, cls=None, frame=None, qual=None):
        self.node, self.module, self.cls, self.frame = node, module, cls, frame
        self.qual = qual or getattr(node, "name", "<lambda>")
        self.defaults = None

    def __repr__(self):
        return "<Func %s>" % self.qual


class BoundV(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class BuiltinM(object):
    """bound method of a builtin type"""

    def __init__(self, name, self_):
        self.name, self.self_ = name, self_


class ClassV(object):
    _n = 0

    def __init__(self, node, module, qual, outer=None):
        self.node, self.module, self.qual = node, module, qual
        self.name = node.name
        self.attrs = {}
        self.bases = None
        self.frame = None
        ClassV._n += 1
        self.tag = ClassV._n

    def __repr__(self):
        return "<Class %s>" % self.qual


class ModV(object):
    def __init__(self, name):
        self.name = name


# constants of external modules
EXT_CONST = {
    "pyparsing.alphanums": "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
                           "abcdefghijklmnopqrstuvwxyz0123456789",
    "string.ascii_letters": "abcdefghijklmnopqrstuvwxyz"
                            "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "string.digits": "0123456789",
}


class ExtV(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<Ext %s>" % self.name


class TypeV(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, TypeV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class PropV(object):
    def __init__(self, fget):
        self.fget, self.fset = fget, None


class StaticV(object):
    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcV(object):
    """a caught exception bound with `as`"""

    def __init__(self, r):
        self.r = r


class Frame(object):
    def __init__(self, ex, module, parent=None, fn=None):
        self.fid = ex.new_id() if ex is not None else 0
        self.vars = {}
        self.module, self.parent, self.fn = module, parent, fn
        self.yields = None


TYPES = {"str", "int", "bool", "list", "dict", "tuple", "set", "float",
         "bytes", "object", "type", "frozenset"}
BUILTIN_FUNCS = {
    "len", "isinstance", "range", "enumerate", "any", "all", "sorted",
    "reversed", "min", "max", "next", "iter", "hasattr", "getattr", "setattr",
    "super", "ord", "chr", "zip", "print", "repr", "id", "abs", "map",
    "filter", "sum", "issubclass", "callable", "property", "classmethod",
    "staticmethod", "hash"}


def is_exc_name(n):
    c = getattr(builtins, n, None)
    return isinstance(c, type) and issubclass(c, BaseException)


# ------------------------------------------------------------------ world
class Module(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.cache = {}
        self.defs = {}
        for st in tree.body:
            self._scan(st)

    def _scan(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.defs[st.name] = st
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        self.defs[n.id] = st
        elif isinstance(st, ast.AnnAssign) and st.value is not None and \
                isinstance(st.target, ast.Name):
            self.defs[st.target.id] = st
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                self.defs[a.asname or a.name.split(".")[0]] = (st, a)
        elif isinstance(st, ast.Try):
            for s in st.body + st.orelse:
                self._scan(s)
        elif isinstance(st, ast.If):
            for s in st.body:
                self._scan(s)


class World(object):
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.sources = {}

    def path_of(self, name):
        base = os.path.join(self.root, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        return None, False

    def module(self, name):
        if name not in self.modules:
            path, pkg = self.path_of(name)
            if path is None:
                raise Unsupported("no module %s" % name)
            with open(path, encoding="utf-8") as f:
                src = f.read()
            try:
                tree = ast.parse(src)
            except SyntaxError as e:
                raise Unsupported("syntax error in %s: %s" % (path, e))
            m = Module(name, path, tree, src)
            m.is_pkg = pkg
            self.modules[name] = m
        return self.modules[name]


class LoopInfo(object):
    def __init__(self):
        self.writes = {}      # loc -> set(shapes)
        self.order = []
        self.dead = set()
        self.soft = set()
        self.cands = None
        self.consts = {}


class Obligation(object):
    def __init__(self, name, status, backend, detail=None):
        self.name, self.status, self.backend, self.detail = (
            name, status, backend, detail)


# ------------------------------------------------------------------ executor
class Exec(object):
    MAXPATHS = 4000
    MAXRESTARTS = 400

    def __init__(self, world, contracts, models, templates=(), deadline=None):
        self.world = world
        self.contracts = contracts
        self.models = models
        self.templates = list(templates)
        self.deadline = deadline
        self.loops = {}
        self.cache = {}
        self.feas_cache = {}
        self.keep = []
        self.trusted = set()
        self.inlined = set()
        self.used_contracts = set()
        self.fast, self.slow, self.int_fast = 2.0, 8.0, 0.4
        self.obligations = {}

    # ---- path management
    int_maps = None

    def reset_path(self, prefix_):
        if self.int_maps is None:
            self.int_maps = set()
        self.prefix = prefix_
        self.decisions = []
        self.pc = []
        self.heap = {}
        self.objs = {}
        self.ids = 0
        self.fresh_n = 0
        self.loop_stack = []
        self.loops_passed = []
        self.callstack = []
        self.path_branches = []
        self.spec_state = {}

    def new_id(self):
        self.ids += 1
        return self.ids

    def explore(self, body):
        """body(ex) executes one path.  Returns number of paths."""
        import time
        restarts = 0
        while True:
            self.obligations = {}
            self.path_count = 0
            stack = [[]]
            try:
                while stack:
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported("time budget exhausted")
                    p = stack.pop()
                    self.reset_path(p)
                    self.path_count += 1
                    if self.path_count > self.MAXPATHS:
                        raise Unsupported("too many paths")
                    try:
                        body(self)
                    except PathEnd:
                        pass
                    # alternatives discovered on this run
                    stack.extend(self.path_branches)
                return self.path_count
            except Restart:
                restarts += 1
                if restarts > self.MAXRESTARTS:
                    raise Unsupported("too many invariant refinements")

    def choose(self, conds):
        """Pick one of several mutually exclusive, jointly exhaustive cases
        given by z3 conditions (or python bools); adds it to the path."""
        i = len(self.decisions)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            feas = [j for j, c in enumerate(conds) if self.feasible(c)]
            if not feas:
                raise PathEnd()
            k = feas[0]
            for j in feas[1:]:
                self.path_branches.append(self.decisions + [j])
        self.decisions.append(k)
        c = conds[k]
        if not isinstance(c, bool):
            self.pc.append(c)
        return k

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def feasible(self, c):
        if isinstance(c, bool):
            return c
        key = (tuple(x.get_id() for x in self.pc), c.get_id())
        if key in self.feas_cache:
            return self.feas_cache[key]
        fs = self.pc + [c]
        s = z3.Solver()
        core.limit(s, FEAS_S)
        s.add(*[f for f in fs if core.light(f)])
        r = s.check() != z3.unsat
        if r:
            ax = core.saturate(fs, rounds=3, cap=200)
            s = z3.Solver()
            core.limit(s, FEAS_S)
            s.add(*fs)
            s.add(*ax)
            r = s.check() != z3.unsat
        self.keep.append(list(fs))
        self.feas_cache[key] = r
        return r

    def entails(self, c):
        """quick syntactic/solver check used only to simplify terms"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (tuple(x.get_id() for x in self.pc), c.get_id(), "e")
        if key in self.feas_cache:
            return self.feas_cache[key]
        s = z3.Solver()
        core.limit(s, 0.3)
        s.add(*[f for f in self.pc if core.light(f)])
        s.add(z3.Not(c))
        r = s.check()
        if r != z3.unsat and not (r == z3.sat and len(s.assertions()) ==
                                  len(self.pc) + 1):
            s = z3.Solver()
            core.limit(s, 0.3)
            s.add(*self.pc)
            s.add(z3.Not(c))
            r = s.check()
        r = r == z3.unsat
        self.keep.append(list(self.pc) + [c])
        self.feas_cache[key] = r
        return r

    def named(self, i, base="pos"):
        """a constant for an integer term"""
        i = z3.simplify(iv(i))
        if z3.is_int_value(i) or (z3.is_const(i) and
                                  i.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return i
        k = self.fresh("int", base)
        self.assume(k == i)
        return k

    def inb(self, s, a, n):
        """is s[a:a+n] known to lie inside s"""
        return self.entails(z3.And(iv(a) >= 0, iv(n) >= 0,
                                   iv(a) + iv(n) <= z3.Length(s)))

    def sub(self, s, a, b):
        """s[a:b] with offsets relative to the outermost text where known"""
        s, a, b = sv(s), iv(a), iv(b)
        while z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and \
                self.entails(z3.And(a >= 0, a <= b, b <= s.arg(2))) and \
                self.inb(*s.children()):
            off = s.arg(1)
            a, b, s = z3.simplify(off + a), z3.simplify(off + b), s.arg(0)
        return sl(s, a, b)

    def length(self, t):
        if isinstance(t, str):
            return len(t)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and \
                self.inb(*t.children()):
            return t.arg(2)
        return z3.Length(t)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self.pc.append(c)

    def prove_(self, goal, slow=None, fast=None, lite=False):
        if isinstance(goal, bool):
            if goal:
                return "proved", "concrete", None
            goal = z3.BoolVal(False)      # is this point reachable at all
        key = (tuple(sorted({x.get_id() for x in self.pc})), goal.get_id())
        if key in self.cache:
            return self.cache[key]
        self.keep.append(list(self.pc) + [goal])
        r = core.prove(self.pc, goal, fast=fast or self.fast, lite=lite,
                       slow=self.slow if slow is None else slow)
        self.cache[key] = r
        return r

    def cover(self):
        """vacuity guard: is this point reachable under the precondition?"""
        if self.covered == "sat" or self.cover_tries > 6:
            return
        self.cover_tries += 1
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*self.pc)
        s.add(*core.saturate(self.pc, rounds=3, cap=200))
        r = s.check()
        if r == z3.sat:
            self.covered = "sat"
        elif r == z3.unknown:
            self.covered = "unknown"

    covered = None
    cover_tries = 0

    def soft_loop(self):
        return any(i.soft for i in self.loops_passed)

    def require(self, name, goal):
        """an obligation of the function under verification"""
        if not isinstance(goal, bool) and not self.feasible(z3.BoolVal(True)):
            raise PathEnd()
        st, be, model = self.prove_(goal)
        if st == "refuted" and self.soft_loop():
            st = "unknown"
        if isinstance(goal, bool) and not goal and st == "proved":
            raise PathEnd()
        ob = self.obligations.get(name)
        if ob is None:
            ob = self.obligations[name] = Obligation(name, st, be)
            ob.count = 0
        ob.count += 1
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if rank[st] > rank[ob.status] or (st != "proved" and
                                          ob.detail is None):
            ob.status, ob.backend = st, be
            ob.detail = {
                "goal": str(goal)[:1500],
                "path": [str(z3.simplify(p))[:300] for p in self.pc][-40:],
                "model": str(model)[:3000] if model is not None else None,
                "callstack": [c for c in self.callstack],
            }
        if st != "proved" and not isinstance(goal, bool):
            # continue under the assumption, as a verifier does
            self.pc.append(goal)
        elif st == "proved" and not isinstance(goal, bool):
            self.pc.append(goal)

    # ---- fresh values
    def fresh_name(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)

    def fresh(self, sort, base="v"):
        n = self.fresh_name(base)
        if sort == "int":
            return z3.Int(n)
        if sort == "bool":
            return z3.Bool(n)
        if sort == "str":
            return z3.String(n)
        if sort == "any":
            return SymAny(z3.Const(n, Val))
        if sort == "lst":
            return z3.Const(n, Lst)
        if sort == "val":
            return z3.Const(n, Val)
        raise AssertionError(sort)

    # ---- heap with write tracking
    def note_write(self, loc, owner_id):
        for (info, mark, written) in self.loop_stack:
            if owner_id <= mark:
                written.add(loc)

    def hset(self, obj, field, value):
        self.heap[(obj.oid, field)] = value
        self.note_write(("h", obj.oid, field), obj.oid)

    def hget(self, obj, field, default=None):
        return self.heap.get((obj.oid, field), default)

    CONTENT = {"list": "items", "dict": "ditems", "set": "sitems"}

    def content(self, v):
        return self.hget(v, self.CONTENT[v.cls])

    def setvar(self, frame, name, value):
        frame.vars[name] = value
        self.note_write(("v", frame.fid, name), frame.fid)

    # ---- value conversion
    def to_val(self, v):
        if v is None:
            return Val.VNone
        if isinstance(v, bool):
            return Val.VBool(z3.BoolVal(v))
        if isinstance(v, int):
            return Val.VInt(z3.IntVal(v))
        if isinstance(v, str):
            return Val.VStr(z3.StringVal(v))
        if isinstance(v, z3.ExprRef):
            if v.sort() == Str:
                return Val.VStr(v)
            if v.sort() == Int:
                return Val.VInt(v)
            if v.sort() == Bool:
                return Val.VBool(v)
            if v.sort() == Val:
                return v
        if isinstance(v, SymAny):
            return v.term
        if isinstance(v, ClassV):
            return Val.VTag(z3.IntVal(v.tag))
        if isinstance(v, Obj):
            return Val.VRef(v.ref)
        if isinstance(v, tuple):
            if len(v) == 2 and all(self.is_str(x) for x in v):
                return Val.VSub(sv(v[0]), sv(v[1]))
            return Val.VRef(self.fresh("int", "tupleref"))
        raise Unsupported("value of kind %s in a symbolic container" %
                          type(v).__name__)

    def from_val(self, t, elem="any"):
        if elem == "str":
            t = z3.simplify(t)
            if t.decl().name() == "VStr":
                return t.arg(0)
            self.assume(Val.is_VStr(t))
            return Val.vs(t)
        if elem == "int":
            self.assume(Val.is_VInt(t))
            return Val.vi(t)
        if elem == "pair":
            t = z3.simplify(t)
            if t.decl().name() == "VSub":
                return t.arg(0), t.arg(1)
            self.assume(Val.is_VSub(t))
            return Val.vh(t), Val.vw(t)
        return SymAny(t)

    def lst_term(self, lv):
        items = self.hget(lv, "items")
        if isinstance(items, SymLst):
            return items.term
        t = NIL
        for x in items:
            t = snoc(t, self.to_val(x))
        return t

    def lst_elem(self, items):
        if isinstance(items, SymLst):
            return items.elem
        kinds = {("str" if self.is_str(x) else "pair" if isinstance(x, tuple)
                  and len(x) == 2 and all(self.is_str(y) for y in x)
                  else "any") for x in items}
        if kinds in ({"str"}, {"pair"}):
            return kinds.pop()
        if not kinds:
            return "empty"
        return "any"

    # ---- type tests
    @staticmethod
    def is_str(v):
        return isinstance(v, str) or (isinstance(v, z3.ExprRef) and
                                      v.sort() == Str)

    @staticmethod
    def is_int(v):
        return (isinstance(v, int) and not isinstance(v, bool)) or (
            isinstance(v, z3.ExprRef) and v.sort() == Int)

    @staticmethod
    def is_bool(v):
        return isinstance(v, bool) or (isinstance(v, z3.ExprRef) and
                                       v.sort() == Bool)

    def resolve_any(self, v):
        """turn a SymAny into a value of known type by case split"""
        if not isinstance(v, SymAny):
            return v
        t = z3.simplify(v.term)
        nm = t.decl().name() if z3.is_app(t) else ""
        if nm == "VStr" or nm == "VInt" or nm == "VBool":
            return t.arg(0)
        if nm == "VNone":
            return None
        k = self.choose([Val.is_VNone(t), Val.is_VStr(t), Val.is_VInt(t),
                         Val.is_VBool(t), Val.is_VRef(t), Val.is_VTag(t)])
        if k == 0:
            return None
        if k == 1:
            return Val.vs(t)
        if k == 2:
            return Val.vi(t)
        if k == 3:
            return Val.vb(t)
        return v

    def truth(self, v):
        """-> python bool or z3 Bool"""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        if isinstance(v, z3.ExprRef):
            if v.sort() == Bool:
                return v
            if v.sort() == Int:
                return v != 0
            if v.sort() == Str:
                return z3.Length(v) > 0
        if isinstance(v, SymAny):
            t = v.term
            return z3.If(Val.is_VNone(t), False,
                         z3.If(Val.is_VStr(t), z3.Length(Val.vs(t)) > 0,
                               z3.If(Val.is_VInt(t), Val.vi(t) != 0,
                                     z3.If(Val.is_VBool(t), Val.vb(t),
                                           True))))
        if isinstance(v, (ListV, SetV, DictV)):
            items = self.content(v)
            if isinstance(items, SymLst):
                return z3.Not(items.term == NIL)
            if isinstance(items, (SymSet, SymMap)):
                raise Unsupported("truth of a symbolic set/dict")
            return len(items) > 0
        if isinstance(v, Obj):
            if isinstance(v.cls, ClassV):
                for nm in ("__bool__", "__len__", "__nonzero__"):
                    if self.class_attr(v.cls, nm) is not None:
                        raise Unsupported("object with %s" % nm)
            h = getattr(v, "truth", None)
            return h(self) if h else True
        if isinstance(v, (FuncV, BoundV, ClassV, ExtV, ModV, TypeV, ExcV)):
            return True
        h = getattr(v, "truth", None)
        if h is not None:
            return h(self)
        raise Unsupported("truth of %s" % type(v).__name__)

    def test(self, v):
        return self.branch(self.truth(v))

    def eq(self, a, b):
        if isinstance(a, SymAny) or isinstance(b, SymAny):
            if isinstance(a, SymAny) and isinstance(b, SymAny):
                return a.term == b.term
            x, o = (a, b) if isinstance(a, SymAny) else (b, a)
            try:
                return x.term == self.to_val(o)
            except Unsupported:
                raise
        if self.is_str(a) and self.is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return sv(a) == sv(b)
        if self.is_bool(a) and self.is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return (z3.BoolVal(a) if isinstance(a, bool) else a) == (
                z3.BoolVal(b) if isinstance(b, bool) else b)
        if self.is_int(a) and self.is_int(b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return iv(a) == iv(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, ListV) and isinstance(b, ListV):
            if a is b:
                return True
            x, y = self.hget(a, "items"), self.hget(b, "items")
            if isinstance(x, tuple) and isinstance(y, tuple):
                return self.eq(x, y)
            if {self.lst_elem(x), self.lst_elem(y)} <= {
                    "str", "int", "pair", "empty"}:
                return self.lst_term(a) == self.lst_term(b)
            raise Unsupported("list equality")
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a is b:
                return True
            if isinstance(a.cls, ClassV) and \
                    self.class_attr(a.cls, "__eq__") is not None:
                raise Unsupported("__eq__")
            if isinstance(a, (DictV, SetV)) or isinstance(b, (DictV, SetV)):
                raise Unsupported("dict/set equality")
            return a.ref == b.ref if (getattr(a, "symref", False) or
                                      getattr(b, "symref", False)) else False
        if isinstance(a, (ClassV, TypeV, ExtV, FuncV)) or \
                isinstance(b, (ClassV, TypeV, ExtV, FuncV)):
            return a is b or (isinstance(a, TypeV) and a == b) or (
                isinstance(a, ExtV) and isinstance(b, ExtV) and
                a.name == b.name)
        ka, kb = self.kind(a), self.kind(b)
        if ka != kb:
            return False
        if isinstance(a, (int, float, str, bytes, type(None))) and \
                isinstance(b, (int, float, str, bytes, type(None))):
            return a == b
        raise Unsupported("equality of %s and %s" % (ka, kb))

    def kind(self, v):
        if v is None:
            return "NoneType"
        if self.is_str(v):
            return "str"
        if self.is_bool(v):
            return "bool"
        if self.is_int(v):
            return "int"
        return type(v).__name__

    @staticmethod
    def conj(cs):
        out = []
        for c in cs:
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                out.append(c)
        if not out:
            return True
        return z3.And(*out)

    @staticmethod
    def disj(cs):
        out = []
        for c in cs:
            if isinstance(c, bool):
                if c:
                    return True
            else:
                out.append(c)
        if not out:
            return False
        return z3.Or(*out)

    def neg(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def is_identical(self, a, b):
        if a is None or b is None:
            if isinstance(a, SymAny):
                return Val.is_VNone(a.term)
            if isinstance(b, SymAny):
                return Val.is_VNone(b.term)
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("identity of opaque")
            return a is None and b is None
        if isinstance(a, bool) or isinstance(b, bool):
            return self.eq(a, b) if self.is_bool(a) and self.is_bool(b) \
                else False
        return self.eq(a, b)

    # ---- names
    def lookup(self, frame, name):
        f = frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if type(v) is LazyV:
                    v = v.force(self)
                    if v is UNBOUND:
                        del f.vars[name]
                        if f is frame:
                            self.raise_("UnboundLocalError")
                        raise Unsupported("unbound variable %s" % name)
                    f.vars[name] = v
                return v
            f = f.parent
        return self.global_(frame.module, name)

    def global_(self, module, name):
        if name in module.cache:
            return module.cache[name]
        d = module.defs.get(name)
        if d is None:
            if name in TYPES:
                return TypeV(name)
            if name in BUILTIN_FUNCS:
                return ExtV("builtins." + name)
            if is_exc_name(name):
                return TypeV(name)
            if name == "__name__":
                return module.name
            if name == "unicode":
                return TypeV("str")
            raise Unsupported("unknown global %s in %s" % (name, module.name))
        if isinstance(d, ast.FunctionDef):
            v = FuncV(d, module, qual="%s.%s" % (module.name, d.name))
            v = self.decorate(v, d, Frame(None, module))
        elif isinstance(d, ast.ClassDef):
            v = ClassV(d, module, "%s.%s" % (module.name, d.name))
        elif isinstance(d, tuple):
            v = self.import_(module, *d)
        else:
            fr = Frame(None, module)
            saved = self.loop_stack
            self.loop_stack = []
            try:
                self.exec_stmt(d, fr)
            finally:
                self.loop_stack = saved
            v = fr.vars[name]
            for k, x in fr.vars.items():
                if not isinstance(x, Obj):
                    module.cache[k] = x
            if isinstance(v, Obj):
                # heap objects are per path
                self.spec_state.setdefault("globals", {})
                return v
            return v
        module.cache[name] = v
        return v

    def import_(self, module, st, alias):
        if isinstance(st, ast.Import):
            nm = alias.name
            if alias.asname is None:
                nm = nm.split(".")[0]
            return self.mod_or_ext(nm)
        base = st.module or ""
        if st.level:
            parts = module.name.split(".")
            if not getattr(module, "is_pkg", False):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        if base == "__future__":
            return None
        path, _ = self.world.path_of(base)
        if path is None:
            return self.ext_attr(base, alias.name)
        sub, _ = self.world.path_of(base + "." + alias.name)
        m = self.world.module(base)
        if alias.name in m.defs:
            return self.global_(m, alias.name)
        if sub is not None:
            return ModV(base + "." + alias.name)
        raise Unsupported("import %s from %s" % (alias.name, base))

    def mod_or_ext(self, nm):
        path, _ = self.world.path_of(nm)
        if path is not None:
            return ModV(nm)
        return ExtV(nm)

    def ext_attr(self, base, name):
        full = base + "." + name
        if full in ("six.text_type", "six.string_types", "builtins.str"):
            return TypeV("str")
        if full in ("six.binary_type",):
            return TypeV("bytes")
        if full in EXT_CONST:
            return EXT_CONST[full]
        if full == "six.integer_types":
            return TypeV("int")
        if full in ("typing.Any", "typing.List"):
            return ExtV(full)
        return ExtV(full)

    # ---- classes
    def class_bases(self, cls):
        if cls.bases is None:
            fr = Frame(None, cls.module)
            cls.bases = [self.ev(b, fr) for b in cls.node.bases]
        return cls.bases

    def mro(self, cls):
        out = []

        def go(c):
            if c in out:
                out.remove(c)
            out.append(c)
            if isinstance(c, ClassV):
                for b in self.class_bases(c):
                    go(b)
        go(cls)
        return out

    def class_def(self, cls, name):
        """evaluate attribute `name` in the body of cls (no bases)"""
        if name in cls.attrs:
            return cls.attrs[name]
        found = None
        for st in cls.node.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                fn = FuncV(st, cls.module, cls=cls,
                           qual="%s.%s" % (cls.qual, name))
                kind = None
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id in (
                            "staticmethod", "classmethod"):
                        kind = StaticV(fn, d.id)
                    elif isinstance(d, ast.Name) and d.id == "property":
                        kind = PropV(fn)
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        if isinstance(found, PropV):
                            found.fset = fn
                            kind = found
                    else:
                        kind = self.decorated(fn, [d], Frame(
                            None, cls.module))
                found = kind or fn
            elif isinstance(st, ast.ClassDef) and st.name == name:
                found = ClassV(st, cls.module, "%s.%s" % (cls.qual, name))
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                if st.value is None:
                    continue
                if any(isinstance(t, ast.Name) and t.id == name for t in tg):
                    if isinstance(st.value, ast.Constant):
                        found = st.value.value
                    else:
                        fr = ClassFrame(self, cls)
                        found = self.ev(st.value, fr)
        if found is not None and not isinstance(found, Obj):
            cls.attrs[name] = found
        return found

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, ClassV):
                v = self.class_def(c, name)
                if v is not None or self.class_has(c, name):
                    return v
        return None

    def class_has(self, cls, name):
        for st in cls.node.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and \
                    st.name == name:
                return True
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        return True
            if isinstance(st, ast.AnnAssign) and st.value is not None and \
                    isinstance(st.target, ast.Name) and st.target.id == name:
                return True
        return False

    def class_has_any(self, cls, name):
        return any(isinstance(c, ClassV) and self.class_has(c, name)
                   for c in self.mro(cls))

    def find_func(self, modname, qual):
        """FuncV for 'Class.method' or 'func' in a module, current source"""
        m = self.world.module(modname)
        parts = qual.split(".")
        v = self.global_(m, parts[0])
        for p in parts[1:]:
            if not isinstance(v, ClassV):
                raise Unsupported("%s is not a class" % parts[0])
            v = self.class_attr(v, p)
            if v is None:
                raise Unsupported("%s.%s not found" % (modname, qual))
        if isinstance(v, StaticV):
            return v.fn
        if isinstance(v, PropV):
            return v.fget
        return v

    def exc_matches(self, r, target):
        if isinstance(target, tuple):
            return any(self.exc_matches(r, t) for t in target)
        if isinstance(target, ListV):
            raise Unsupported("except list")
        names = set()
        if isinstance(r.cls, ClassV):
            for c in self.mro(r.cls):
                if isinstance(c, ClassV):
                    names.add(c.name)
                elif isinstance(c, TypeV):
                    b = getattr(builtins, c.name, None)
                    if b is not None:
                        names.update(x.__name__ for x in b.__mro__)
                elif isinstance(c, ExtV):
                    names.add(c.name.split(".")[-1])
        else:
            b = getattr(builtins, r.cls, None)
            names.update(x.__name__ for x in b.__mro__) if b is not None \
                else names.update([r.cls, "Exception", "BaseException"])
            if r.cls == "JSONDecodeError":
                names.add("ValueError")
        if isinstance(target, (ClassV, TypeV)):
            return target.name in names
        if isinstance(target, ExtV):
            return target.name.split(".")[-1] in names
        raise Unsupported("except clause")

    def raise_(self, cls, *args):
        raise PyRaise(cls, args)

    # ---- statements
    def exec_body(self, body, frame):
        for st in body:
            self.exec_stmt(st, frame)

    def exec_stmt(self, st, frame):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        m(st, frame)

    def st_Pass(self, st, frame):
        pass

    def st_Expr(self, st, frame):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, frame)

    def st_Return(self, st, frame):
        raise ReturnSig(self.ev(st.value, frame) if st.value else None)

    def st_Break(self, st, frame):
        raise BreakSig()

    def st_Continue(self, st, frame):
        raise ContinueSig()

    def st_Assign(self, st, frame):
        v = self.ev(st.value, frame)
        for t in st.targets:
            self.assign(t, v, frame)

    def st_AnnAssign(self, st, frame):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, frame), frame)

    def st_AugAssign(self, st, frame):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(frame, t.id)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, frame)
            cur = self.getattr(o, t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, frame)
            idx = self.ev(t.slice, frame)
            cur = self.getitem(o, idx)
        else:
            raise Unsupported("augassign")
        rhs = self.ev(st.value, frame)
        if isinstance(cur, ListV) and isinstance(st.op, ast.Add):
            self.models.list_method(self, cur, "extend", [rhs], {})
            return
        v = self.binop(st.op, cur, rhs)
        if isinstance(t, ast.Name):
            self.assign(t, v, frame)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, v)
        else:
            self.setitem(o, idx, v)

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            f = frame
            if t.id in getattr(frame, "nonlocals", ()):
                f = frame.parent
                while f is not None and t.id not in f.vars:
                    f = f.parent
            self.setvar(f, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, frame), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, frame), self.ev(t.slice, frame), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, frame)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_("ValueError")
            return v
        if isinstance(v, ListV):
            items = self.hget(v, "items")
            if isinstance(items, tuple):
                if len(items) != n:
                    self.raise_("ValueError")
                return items
            # symbolic list
            sp = getattr(v, "piece", None)
            if sp is not None and v.intact(self) and n <= 8:
                out = [v.piece(self, i) for i in range(n)]
                if out[-1] is None or v.start(self, n) is not None:
                    self.raise_("ValueError")
                return tuple(out)
            t = items.term
            if not self.branch(LLEN(t) == n):
                self.raise_("ValueError")
            xs = [self.fresh("val", "unp") for _ in range(n)]
            tt = NIL
            for x in xs:
                tt = snoc(tt, x)
            self.assume(t == tt)
            return tuple(self.from_val(x, items.elem) for x in xs)
        if self.is_str(v):
            if isinstance(v, str):
                if len(v) != n:
                    self.raise_("ValueError")
                return tuple(v)
        h = getattr(v, "unpack", None)
        if h:
            return h(self, n)
        raise Unsupported("unpacking %s" % type(v).__name__)

    def st_Delete(self, st, frame):
        for t in st.targets:
            if isinstance(t, ast.Name):
                frame.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, frame)
                k = self.ev(t.slice, frame)
                self.models.delitem(self, o, k)
            else:
                raise Unsupported("del")

    def st_If(self, st, frame):
        if self.test(self.ev(st.test, frame)):
            self.exec_body(st.body, frame)
        else:
            self.exec_body(st.orelse, frame)

    def st_Assert(self, st, frame):
        if not self.test(self.ev(st.test, frame)):
            self.raise_("AssertionError")

    def st_Raise(self, st, frame):
        if st.exc is None:
            cur = self.spec_state.get("handling")
            if not cur:
                raise Unsupported("bare raise")
            raise cur[-1]
        v = self.ev(st.exc, frame)
        raise self.as_raise(v)

    def as_raise(self, v):
        if isinstance(v, ExcV):
            return v.r
        if isinstance(v, TypeV):
            return PyRaise(v.name, ())
        if isinstance(v, ClassV):
            return PyRaise(v, ())
        if isinstance(v, Obj) and isinstance(v.cls, ClassV):
            return PyRaise(v.cls, (), v)
        if isinstance(v, PyRaise):
            return v
        if isinstance(v, ExtV):
            return PyRaise(v.name.split(".")[-1], ())
        raise Unsupported("raise of %s" % type(v).__name__)

    def st_Try(self, st, frame):
        try:
            try:
                self.exec_body(st.body, frame)
            except PyRaise as r:
                for h in st.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.exc_matches(r, self.ev(h.type, frame))
                    if ok:
                        if h.name:
                            self.setvar(frame, h.name, ExcV(r))
                        hs = self.spec_state.setdefault("handling", [])
                        hs.append(r)
                        try:
                            self.exec_body(h.body, frame)
                        finally:
                            hs.pop()
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, frame)
        except (PathEnd, Restart, Unsupported):
            raise
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            self.exec_body(st.finalbody, frame)
            raise
        else:
            self.exec_body(st.finalbody, frame)

    def st_FunctionDef(self, st, frame):
        fn = FuncV(st, frame.module, frame=frame,
                   cls=getattr(frame.fn, "cls", None),
                   qual="%s.<locals>.%s" % (
                       frame.fn.qual if frame.fn else "", st.name))
        fn.defaults = [self.ev(d, frame) for d in st.args.defaults]
        self.setvar(frame, st.name, self.decorate(fn, st, frame))

    def st_Global(self, st, frame):
        raise Unsupported("global statement")

    def st_Nonlocal(self, st, frame):
        frame.nonlocals = set(st.names)

    def st_Import(self, st, frame):
        for a in st.names:
            self.setvar(frame, a.asname or a.name.split(".")[0],
                        self.import_(frame.module, st, a))

    def st_ImportFrom(self, st, frame):
        for a in st.names:
            self.setvar(frame, a.asname or a.name,
                        self.import_(frame.module, st, a))

    def decorate(self, fn, st, frame):
        return self.decorated(fn, st.decorator_list, frame)

    def decorated(self, fn, decs, frame):
        """a decorator is a function that gets the function"""
        v = fn
        for d in reversed(decs):
            dec = self.ev(d, frame)
            if not isinstance(dec, FuncV):
                raise Unsupported("decorator on %s" % fn.qual)
            v = self.call_func(dec, [v], {})
        return v

    def st_While(self, st, frame):
        def cond():
            return self.test(self.ev(st.test, frame))

        def body():
            self.exec_body(st.body, frame)
        self.loop(st, frame, cond, body,
                  lambda: self.exec_body(st.orelse, frame))

    def st_For(self, st, frame):
        it = self.iter(self.ev(st.iter, frame))
        self.for_loop(st, frame, it,
                      lambda x: self.assign(st.target, x, frame),
                      lambda: self.exec_body(st.body, frame),
                      lambda: self.exec_body(st.orelse, frame))

    def for_loop(self, key, frame, it, bind, body, orelse=lambda: None):
        if it.concrete(self):
            try:
                while True:
                    ok, x = it.next(self)
                    if not ok:
                        break
                    bind(x)
                    try:
                        body()
                    except ContinueSig:
                        pass
            except BreakSig:
                return
            orelse()
            return
        box = []

        def cond():
            ok, x = it.next(self)
            if ok:
                box[:] = [x]
            return ok

        def body2():
            bind(box[0])
            body()
        self.loop(key, frame, cond, body2, orelse)

    # ---- loops cut by an invariant
    def loc_get(self, loc, frames):
        if loc[0] == "v":
            f = frames.get(loc[1])
            return f.vars.get(loc[2], UNBOUND) if f else UNBOUND
        return self.heap.get((loc[1], loc[2]), UNBOUND)

    def loop(self, node, frame, cond, body, orelse):
        # concretely bounded loops are simply executed
        key = (node.lineno, node.col_offset, type(node).__name__,
               frame.module.name if frame.module else "",
               tuple(self.callstack), tuple(self.decisions))
        info = self.loops.get(key)
        if info is None:
            info = self.loops[key] = LoopInfo()
        self.frames_now = None
        frames = {}
        f = frame
        while f is not None:
            frames[f.fid] = f
            f = f.parent
        # every frame on the interpreter stack may be written by closures
        for fr in self.frame_stack:
            frames[fr.fid] = fr
        mark = self.ids
        # entry shapes
        for loc in info.order:
            v = self.loc_get(loc, frames)
            sh = self.shape(v, loc, mark)
            if sh not in info.writes[loc]:
                info.writes[loc].append(sh)
                raise Restart()
        state0 = LoopState(self, frame, frames, info, dict(
            (loc, self.loc_get(loc, frames)) for loc in info.order))
        cands = self.candidates(node, state0, info)
        bad, self.gave_up = [], set()
        for name, fn in cands:
            if name in info.dead:
                continue
            g = fn(state0)
            if not self.holds(info, name, g):
                bad.append(name)
        if bad:
            info.dead.update(bad)
            info.soft |= self.gave_up
            raise Restart()
        if os.environ.get("PYVC_TRACE"):
            print("LOOP", key[:4], "writes", info.order, "alive",
                  [n for n, _ in cands if n not in info.dead])
        # havoc
        for loc in info.order:
            shapes = info.writes[loc]
            k = 0
            if shapes and shapes[0][0] == "symlst":
                el = {x[1] for x in shapes if x[0] == "symlst"} - {"empty"}
                shapes = [x for x in shapes if x[0] != "symlst"] + [
                    ("symlst", el.pop() if len(el) == 1 else
                     "any" if el else "empty")]
            if ("any",) in shapes and all(
                    x[0] in ("any", "none", "str", "int", "bool")
                    for x in shapes):
                shapes = [("any",)]
            if len(shapes) > 1 and loc[0] == "v":
                self.loc_set(loc, LazyV(self, shapes, loc,
                                        state0.entry[loc], info), frames)
                continue
            if len(shapes) > 1:
                k = self.choose([True] * len(shapes))
            v = self.fresh_of(shapes[k], loc, state0.entry[loc], info)
            self.loc_set(loc, v, frames)
        st1 = LoopState(self, frame, frames, info, state0.entry)
        for name, fn in cands:
            if name not in info.dead:
                g = fn(st1)
                if g is not None and not (isinstance(g, bool) and g):
                    self.assume(g)
        written = set()
        self.loops_passed.append(info)
        self.loop_stack.append((info, mark, written))
        try:
            if cond():
                try:
                    body()
                except ContinueSig:
                    pass
            else:
                self.loop_stack.pop()
                self._absorb(info, written)
                orelse()
                return
        except BreakSig:
            self.loop_stack.pop()
            self._absorb(info, written)
            return
        except (PyRaise, ReturnSig):
            # leaves the loop for good
            self.loop_stack.pop()
            self._absorb(info, written)
            raise
        # back edge
        self.loop_stack.pop()
        self._absorb(info, written, frames, mark)
        st2 = LoopState(self, frame, frames, info, state0.entry)
        bad, self.gave_up = [], set()
        for name, fn in cands:
            if name in info.dead:
                continue
            g = fn(st2)
            if not self.holds(info, name, g):
                if os.environ.get("PYVC_TRACE"):
                    print("KILL", name, g if g is None else
                          str(z3.simplify(g) if not isinstance(g, bool) else g
                              )[:400])
                bad.append(name)
        if bad:
            # an infeasible path kills nothing
            if self.feasible(z3.BoolVal(True)):
                info.dead.update(bad)
                info.soft |= self.gave_up
                raise Restart()
        raise PathEnd()

    def holds(self, info, name, g):
        """does a candidate invariant hold here; a candidate given up only
        because the solver gave up makes the loop `soft`: what fails after it
        is undecided, not refuted"""
        if g is None:
            return False
        if name.startswith("spec:"):
            st = self.prove_(g, slow=self.slow)[0]
        else:
            st = self.prove_(g, slow=0, fast=self.int_fast,
                             lite=True)[0]
        if st == "unknown":
            self.gave_up.add(name)
        return st == "proved"

    def _absorb(self, info, written, frames=None, mark=None):
        """record locations written in the body; restart when new"""
        changed = False
        for loc in sorted(written, key=str):
            if loc not in info.writes:
                info.writes[loc] = []
                info.order.append(loc)
                changed = True
        if changed:
            raise Restart()
        if frames is not None:
            for loc in info.order:
                v = self.loc_get(loc, frames)
                sh = self.shape(v, loc, mark)
                if sh not in info.writes[loc] and not (
                        sh == ("symlst", "empty") and any(
                            x[0] == "symlst" for x in info.writes[loc])):
                    info.writes[loc].append(sh)
                    changed = True
                if isinstance(v, (str, int)) and not isinstance(v, bool):
                    cs = info.consts.setdefault(loc, set())
                    if v not in cs:
                        cs.add(v)
            if changed:
                raise Restart()

    def loc_set(self, loc, v, frames):
        if loc[0] == "v":
            f = frames.get(loc[1])
            if f is None:
                return
            if v is UNBOUND:
                f.vars.pop(loc[2], None)
            else:
                f.vars[loc[2]] = v
                self.note_write(loc, loc[1])
        else:
            if v is UNBOUND:
                self.heap.pop((loc[1], loc[2]), None)
            else:
                self.heap[(loc[1], loc[2])] = v
                self.note_write(loc, loc[1])

    def shape(self, v, loc=None, mark=None):
        if type(v) is LazyV:
            return v.shapes[0]
        if v is UNBOUND:
            return ("unbound",)
        if loc is not None and loc[0] == "h":
            if loc[2] == "items":
                return ("symlst", self.lst_elem(v))
            if loc[2] == "sitems":
                return ("symset",)
            if loc[2] == "ditems":
                if isinstance(v, SymMap):
                    if v.dom.sort().domain() == Int:
                        self.int_maps.add(loc)
                elif isinstance(v, dict) and v and all(
                        self.is_int(k) for k in v):
                    self.int_maps.add(loc)
                return ("symmap", "any")
        if v is None:
            return ("none",)
        if self.is_bool(v):
            return ("bool",)
        if self.is_int(v):
            return ("int",)
        if self.is_str(v):
            return ("str",)
        if isinstance(v, SymAny):
            return ("any",)
        if isinstance(v, z3.ExprRef):
            return ("sort", v.sort())
        if isinstance(v, SymLst):
            return ("symlst", "any")
        if isinstance(v, SymSet):
            return ("symset",)
        if isinstance(v, SymMap):
            return ("symmap", v.elem)
        if isinstance(v, ListContent):
            return ("symlst", "any")
        if isinstance(v, dict):
            return ("dict",)
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.shape(x, None, mark) for x in v)
        if isinstance(v, Obj):
            h = getattr(v, "loop_shape", None)
            if h is not None:
                return h(self)
            if mark is not None and v.oid <= mark:
                return ("obj", v.oid)
            return ("opaque",)
        if isinstance(v, (float, bytes, ClassV, TypeV, ExtV, ModV)):
            return ("const", v)
        return ("opaque",)

    def fresh_of(self, sh, loc, entry, info):
        k = sh[0]
        base = str(loc[2])
        if k == "unbound":
            return UNBOUND
        if k == "none":
            return None
        if k in ("bool", "int", "str"):
            return self.fresh(k, base)
        if k == "any":
            return self.fresh("any", base)
        if k == "sort":
            return z3.Const(self.fresh_name(base), sh[1])
        if k == "symlst":
            return SymLst(self.fresh("lst", base), sh[1])
        if k == "symset":
            return SymSet(z3.Const(self.fresh_name(base),
                                   z3.ArraySort(Val, Bool)))
        if k == "symmap":
            ks = Int if loc in self.int_maps else Str
            return SymMap(z3.Const(self.fresh_name(base),
                                   z3.ArraySort(ks, Bool)),
                          z3.Const(self.fresh_name(base),
                                   z3.ArraySort(ks, Val)), sh[1])
        if k == "tuple":
            return tuple(self.fresh_of(s, loc, None, info) for s in sh[1:])
        if k == "obj":
            return self.objs[sh[1]]
        if k == "opaque":
            return Opaque("value carried around a loop: %s" % base)
        if k == "const":
            return sh[1]
        if k == "fresh":
            return sh[1](self)
        raise Unsupported("loop modifies a value of shape %s" % (sh,))

    def candidates(self, node, st, info):
        out = []
        seen = set()
        for tmpl in self.templates:
            for name, fn in tmpl(self, st):
                if name not in seen:
                    seen.add(name)
                    out.append((name, fn))
        return out

    # ---- calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, BoundV):
            return self.call_func(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, BuiltinM):
            return self.models.method(self, f.self_, f.name, list(args),
                                      kwargs)
        if isinstance(f, ExtV):
            return self.models.ext(self, f.name, list(args), kwargs)
        if isinstance(f, TypeV):
            return self.models.type_call(self, f.name, list(args), kwargs)
        h = getattr(f, "call", None)
        if h is not None:
            return h(self, args, kwargs)
        raise Unsupported("call of %s" % type(f).__name__)

    def instantiate(self, cls, args, kwargs):
        c = self.contracts.get(cls.qual)
        if c is not None:
            self.used_contracts.add(cls.qual)
            return c.call(self, args, kwargs)
        if any(isinstance(b, TypeV) and is_exc_name(b.name)
               for b in self.mro(cls)):
            o = Obj(self, cls)
            self.hset(o, "args", tuple(args))
            init = self.class_attr(cls, "__init__")
            if init is not None:
                try:
                    self.call_func(init, [o] + args, kwargs)
                except Unsupported:
                    pass
            return o
        for b in self.mro(cls):
            if isinstance(b, ExtV):
                raise Unsupported("class %s derives from external %s" % (
                    cls.qual, b.name))
        o = Obj(self, cls)
        init = self.class_attr(cls, "__init__")
        if init is not None:
            self.call_func(init, [o] + args, kwargs)
        return o

    def call_func(self, fn, args, kwargs):
        c = self.contracts.get(fn.qual)
        if c is not None and self.callstack and c.callable_:
            self.used_contracts.add(fn.qual)
            return c.call(self, args, kwargs)
        if fn.qual in [q for q in self.callstack]:
            raise Unsupported("recursive call of %s without contract" %
                              fn.qual)
        if len(self.callstack) > 25:
            raise Unsupported("call depth")
        if self.callstack:
            self.inlined.add(fn.qual)
        return self.run_func(fn, args, kwargs)

    frame_stack = ()

    def run_func(self, fn, args, kwargs):
        node = fn.node
        frame = Frame(self, fn.module, fn.frame, fn)
        self.bind_args(fn, frame, args, kwargs)
        self.callstack.append(fn.qual)
        saved = self.frame_stack
        self.frame_stack = tuple(saved) + (frame,)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, frame)
            isgen = is_generator(node)
            if isgen:
                frame.yields = ListV(self, ())
            try:
                self.exec_body(node.body, frame)
                ret = None
            except ReturnSig as r:
                ret = r.v
            if isgen:
                return GenV(self, frame.yields)
            return ret
        finally:
            self.frame_stack = saved
            self.callstack.pop()

    def bind_args(self, fn, frame, args, kwargs):
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        defaults = fn.defaults
        for i, p in enumerate(params):
            if i < len(args):
                frame.vars[p] = args[i]
            elif p in kwargs:
                frame.vars[p] = kwargs.pop(p)
            else:
                j = i - (len(params) - len(a.defaults))
                if j < 0:
                    self.raise_("TypeError", "missing argument %s" % p)
                frame.vars[p] = (defaults[j] if defaults is not None else
                                 self.ev(a.defaults[j],
                                         Frame(None, fn.module)))
        if a.vararg:
            frame.vars[a.vararg.arg] = tuple(args[len(params):])
        elif len(args) > len(params):
            self.raise_("TypeError", "too many arguments")
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kwargs:
                frame.vars[p.arg] = kwargs.pop(p.arg)
            elif d is not None:
                frame.vars[p.arg] = self.ev(d, Frame(None, fn.module))
            else:
                self.raise_("TypeError", "missing kw argument")
        if a.kwarg:
            frame.vars[a.kwarg.arg] = DictV(self, dict(kwargs))
        elif kwargs:
            self.raise_("TypeError", "unexpected kwargs")

    # ---- attributes
    def getattr(self, o, name):
        if isinstance(o, Obj) and not isinstance(o, (ListV, DictV, SetV)):
            if (o.oid, name) in self.heap:
                return self.heap[(o.oid, name)]
            h = getattr(o, "get_attr", None)
            if h is not None:
                r = h(self, name)
                if r is not NotImplemented:
                    return r
            if isinstance(o.cls, ClassV):
                return self.bind_class_attr(o.cls, name, o)
            raise Unsupported("attribute %s of %r" % (name, o))
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            v = self.class_attr(o, name)
            if v is None and not self.class_has_any(o, name):
                raise Unsupported("class attribute %s.%s" % (o.qual, name))
            if isinstance(v, StaticV):
                return v.fn if v.kind == "staticmethod" else BoundV(v.fn, o)
            return v
        if isinstance(o, ModV):
            m = self.world.module(o.name)
            if name in m.defs:
                return self.global_(m, name)
            sub, _ = self.world.path_of(o.name + "." + name)
            if sub:
                return ModV(o.name + "." + name)
            raise Unsupported("module attribute %s.%s" % (o.name, name))
        if isinstance(o, ExtV):
            return self.ext_attr(o.name, name)
        if isinstance(o, SuperV):
            mro = self.mro(o.obj.cls if isinstance(o.obj, Obj) else o.obj)
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassV) and self.class_has(c, name):
                    v = self.class_def(c, name)
                    return self.bind_value(v, o.obj)
                if isinstance(c, TypeV) and c.name == "object" and \
                        name == "__init__":
                    return ExtV("builtins.object_init")
                if isinstance(c, ExtV):
                    raise Unsupported("super() into %s" % c.name)
            if name == "__init__":
                return ExtV("builtins.object_init")
            raise Unsupported("super().%s" % name)
        if isinstance(o, ExcV):
            if name == "args":
                return tuple(o.r.eargs)
            if o.r.obj is not None:
                return self.getattr(o.r.obj, name)
            raise Unsupported("exception attribute")
        if isinstance(o, SymAny):
            o = self.resolve_any(o)
            if isinstance(o, SymAny):
                h = self.spec_state.get("ref_attr")
                if h is not None:
                    r = h(self, o, name)
                    if r is not NotImplemented:
                        return r
                raise Unsupported("attribute %s of an unknown object" % name)
        if o is None:
            self.raise_("AttributeError")
        h = getattr(o, "get_attr", None)
        if h is not None:
            r = h(self, name)
            if r is not NotImplemented:
                return r
        if isinstance(o, (FuncV,)) and name == "__name__":
            return o.node.name
        if isinstance(o, TypeV):
            return BuiltinM(name, o)
        return BuiltinM(name, o)

    def bind_class_attr(self, cls, name, o):
        for c in self.mro(cls):
            if isinstance(c, ClassV) and self.class_has(c, name):
                return self.bind_value(self.class_def(c, name), o)
        if name == "__class__":
            return cls
        for c in self.mro(cls):
            if isinstance(c, ExtV):
                raise Unsupported("attribute %s may come from %s" % (
                    name, c.name))
        self.raise_("AttributeError", name)

    def bind_value(self, v, o):
        if isinstance(v, FuncV):
            return BoundV(v, o)
        if isinstance(v, PropV):
            return self.call_func(v.fget, [o], {})
        if isinstance(v, StaticV):
            if v.kind == "staticmethod":
                return v.fn
            return BoundV(v.fn, o.cls if isinstance(o, Obj) else o)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj) and not isinstance(o, (ListV, DictV, SetV)):
            if isinstance(o.cls, ClassV):
                for c in self.mro(o.cls):
                    if isinstance(c, ClassV) and self.class_has(c, name):
                        d = self.class_def(c, name)
                        if isinstance(d, PropV):
                            if d.fset is None:
                                self.raise_("AttributeError")
                            self.call_func(d.fset, [o, v], {})
                            return
                        break
            h = getattr(o, "set_attr", None)
            if h is not None:
                r = h(self, name, v)
                if r is not NotImplemented:
                    return
            self.hset(o, name, v)
            return
        raise Unsupported("setattr on %s" % type(o).__name__)

    # ---- items
    def getitem(self, o, idx):
        return self.models.getitem(self, o, idx)

    def setitem(self, o, idx, v):
        return self.models.setitem(self, o, idx, v)

    def iter(self, v):
        return self.models.iter(self, v)

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    # ---- expressions
    def ev(self, e, frame):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, frame)

    def ev_Constant(self, e, frame):
        return e.value

    def ev_Name(self, e, frame):
        v = self.lookup(frame, e.id)
        return v

    def ev_Attribute(self, e, frame):
        return self.getattr(self.ev(e.value, frame), e.attr)

    def ev_Subscript(self, e, frame):
        o = self.ev(e.value, frame)
        return self.getitem(o, self.ev(e.slice, frame))

    def ev_Slice(self, e, frame):
        return SliceV(self.ev(e.lower, frame) if e.lower else None,
                      self.ev(e.upper, frame) if e.upper else None,
                      self.ev(e.step, frame) if e.step else None)

    def ev_Tuple(self, e, frame):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, frame)
                out.extend(self.concrete_items(v))
            else:
                out.append(self.ev(x, frame))
        return tuple(out)

    def concrete_items(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, (ListV, SetV)):
            items = self.content(v)
            if isinstance(items, tuple):
                return items
        if isinstance(v, GenV):
            items = self.content(v.lst)
            if isinstance(items, tuple):
                return items
        if isinstance(v, DictV):
            items = self.content(v)
            if isinstance(items, dict):
                return tuple(items)
        if isinstance(v, str):
            return tuple(v)
        raise Unsupported("need a concrete sequence")

    def ev_List(self, e, frame):
        return ListV(self, self.ev_Tuple(e, frame))

    def ev_Set(self, e, frame):
        return self.models.make_set(self, self.ev_Tuple(e, frame))

    def ev_Dict(self, e, frame):
        d = DictV(self, {})
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, frame)
                items = self.content(src)
                if not isinstance(items, dict):
                    raise Unsupported("** of a symbolic dict")
                for kk, vv in items.items():
                    self.setitem(d, kk, vv)
            else:
                self.setitem(d, self.ev(k, frame), self.ev(v, frame))
        return d

    def ev_BoolOp(self, e, frame):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, frame)
            if i == len(e.values) - 1:
                return v
            t = self.test(v)
            if isand and not t:
                return v if not isinstance(v, z3.ExprRef) or v.sort() != Bool \
                    else False
            if not isand and t:
                return v if not isinstance(v, z3.ExprRef) or v.sort() != Bool \
                    else True
        return v

    def ev_UnaryOp(self, e, frame):
        v = self.ev(e.operand, frame)
        if isinstance(e.op, ast.Not):
            return self.neg(self.truth(v))
        if isinstance(e.op, ast.USub):
            v = self.resolve_any(v)
            if self.is_int(v) or isinstance(v, float):
                return -v
        raise Unsupported("unary operator")

    def ev_BinOp(self, e, frame):
        a = self.ev(e.left, frame)
        b = self.ev(e.right, frame)
        return self.binop(e.op, a, b)

    def ev_Compare(self, e, frame):
        left = self.ev(e.left, frame)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, frame)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            res = self.conj([res, c])
            if res is False:
                return False
            if len(e.ops) > 1 and not self.branch(c):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_identical(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_identical(a, b))
        if isinstance(op, ast.In):
            return self.models.contains(self, b, a)
        if isinstance(op, ast.NotIn):
            return self.neg(self.models.contains(self, b, a))
        a, b = self.resolve_any(a), self.resolve_any(b)
        if self.is_bool(a) and not isinstance(a, bool):
            a = z3.If(a, 1, 0)
        if self.is_int(a) and self.is_int(b):
            if isinstance(op, ast.Lt):
                return a < b
            if isinstance(op, ast.LtE):
                return a <= b
            if isinstance(op, ast.Gt):
                return a > b
            if isinstance(op, ast.GtE):
                return a >= b
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                    ast.GtE: a >= b}[type(op)]
        if self.is_str(a) and self.is_str(b):
            a, b = sv(a), sv(b)
            if isinstance(op, ast.Lt):
                return a < b
            if isinstance(op, ast.LtE):
                return a <= b
            if isinstance(op, ast.Gt):
                return b < a
            return b <= a
        if a is None or b is None:
            self.raise_("TypeError")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                    ast.GtE: a >= b}[type(op)]
        raise Unsupported("ordering of %s, %s" % (self.kind(a), self.kind(b)))

    def ev_Call(self, e, frame):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
                "super" not in frame.vars:
            if e.args:
                c = self.ev(e.args[0], frame)
                o = self.ev(e.args[1], frame)
            else:
                fn = frame.fn
                c = fn.cls
                o = frame.vars[fn.node.args.args[0].arg]
            return SuperV(c, o)
        f = self.ev(e.func, frame)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.concrete_items(self.ev(x.value, frame)))
            else:
                args.append(self.ev(x, frame))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, frame)
            if k.arg is None:
                items = self.content(v)
                if not isinstance(items, dict):
                    raise Unsupported("** of symbolic dict")
                kwargs.update(items)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def ev_IfExp(self, e, frame):
        if self.test(self.ev(e.test, frame)):
            return self.ev(e.body, frame)
        return self.ev(e.orelse, frame)

    def ev_Lambda(self, e, frame):
        fn = FuncV(e, frame.module, frame=frame,
                   cls=getattr(frame.fn, "cls", None), qual="<lambda>@%d:%d" %
                   (e.lineno, e.col_offset))
        fn.defaults = [self.ev(d, frame) for d in e.args.defaults]
        return fn

    def ev_JoinedStr(self, e, frame):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                if p.format_spec is not None or p.conversion not in (-1, 115):
                    self.ev(p.value, frame)
                    out.append(self.fresh("str", "fstr"))
                else:
                    out.append(self.models.to_str(self, self.ev(p.value,
                                                                frame)))
        return self.models.concat(self, out)

    def _comp(self, e, frame, add):
        fr = Frame(self, frame.module, frame, frame.fn)
        saved = self.frame_stack
        self.frame_stack = tuple(saved) + (fr,)
        try:
            self._comp_rec(e, 0, fr, add)
        finally:
            self.frame_stack = saved

    def _comp_rec(self, e, i, fr, add):
        if i == len(e.generators):
            add(fr)
            return
        g = e.generators[i]
        it = self.iter(self.ev(g.iter, fr))

        def body():
            for c in g.ifs:
                if not self.test(self.ev(c, fr)):
                    raise ContinueSig()
            self._comp_rec(e, i + 1, fr, add)
        self.for_loop(e, fr, it, lambda x: self.assign(g.target, x, fr), body)

    def ev_ListComp(self, e, frame):
        out = ListV(self, ())
        self._comp(e, frame, lambda fr: self.models.list_method(
            self, out, "append", [self.ev(e.elt, fr)], {}))
        return out

    def ev_GeneratorExp(self, e, frame):
        return GenV(self, self.ev_ListComp(e, frame))

    def ev_SetComp(self, e, frame):
        out = self.models.make_set(self, ())
        self._comp(e, frame, lambda fr: self.models.set_add(
            self, out, self.ev(e.elt, fr)))
        return out

    def ev_DictComp(self, e, frame):
        out = DictV(self, {})

        def add(fr):
            k = self.ev(e.key, fr)
            self.setitem(out, k, self.ev(e.value, fr))
        self._comp(e, frame, add)
        return out

    def ev_Yield(self, e, frame):
        v = self.ev(e.value, frame) if e.value else None
        f = frame
        while f is not None and f.yields is None:
            f = f.parent
        if f is None:
            raise Unsupported("yield outside generator")
        h = self.spec_state.get("on_yield")
        if h is not None and f.fn is not None and \
                f.fn.qual == self.spec_state.get("yield_fn"):
            h(self, f, v)
            return None
        self.models.list_method(self, f.yields, "append", [v], {})
        return None

    def ev_YieldFrom(self, e, frame):
        raise Unsupported("yield from")

    def ev_Starred(self, e, frame):
        raise Unsupported("starred")

    def ev_NamedExpr(self, e, frame):
        v = self.ev(e.value, frame)
        self.assign(e.target, v, frame)
        return v


class ListContent(object):
    pass


class _Unbound(object):
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()


class LazyV(object):
    """a loop-carried local whose type is one of several: decided when it is
    first read"""

    def __init__(self, ex, shapes, loc, entry, info):
        self.shapes, self.loc, self.entry, self.info = (shapes, loc, entry,
                                                        info)

    def force(self, ex):
        k = ex.choose([True] * len(self.shapes))
        return ex.fresh_of(self.shapes[k], self.loc, self.entry, self.info)


class SliceV(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class GenV(object):
    """an (eagerly evaluated) generator"""

    def __init__(self, ex, lst):
        self.lst = lst
        self.pos = None


class ClassFrame(Frame):
    """name lookup inside a class body"""

    def __init__(self, ex, cls):
        Frame.__init__(self, ex, cls.module)
        self.cls = cls
        self.ex = ex
        self.vars = _ClassVars(ex, cls)


class _ClassVars(dict):
    def __init__(self, ex, cls):
        self.ex, self.cls = ex, cls

    def __contains__(self, name):
        return dict.__contains__(self, name) or (
            self.ex.class_has(self.cls, name))

    def __getitem__(self, name):
        if dict.__contains__(self, name):
            return dict.__getitem__(self, name)
        return self.ex.class_def(self.cls, name)


class LoopState(object):
    """What invariant templates may look at: typed views of the state at a
    loop head, by role and type, never by a particular name."""

    def __init__(self, ex, frame, frames, info, entry):
        self.ex, self.frame, self.frames, self.info = ex, frame, frames, info
        self.entry = entry

    def locs(self, pred):
        out = []
        for loc in self.info.order:
            v = self.get(loc)
            if v is not UNBOUND and pred(v):
                out.append(loc)
        return out

    def get(self, loc):
        v = self.ex.loc_get(loc, self.frames)
        return UNBOUND if type(v) is LazyV else v

    def consts_str(self):
        """string-valued locals not written by the loop"""
        out = []
        seen = set()
        f = self.frame
        while f is not None:
            for k, v in sorted(dict.items(f.vars)):
                if ("v", f.fid, k) in self.info.writes:
                    continue
                if isinstance(v, z3.ExprRef) and v.sort() == Str and \
                        v.get_id() not in seen:
                    seen.add(v.get_id())
                    out.append(v)
                if isinstance(v, Obj) and not isinstance(
                        v, (ListV, DictV, SetV)):
                    self._obj_strs(v, seen, out, 2)
            f = f.parent
        return out

    def _obj_strs(self, v, seen, out, depth):
        for (oid, fld), x in list(self.ex.heap.items()):
            if oid != v.oid:
                continue
            if isinstance(x, z3.ExprRef) and x.sort() == Str and \
                    ("h", oid, fld) not in self.info.writes and \
                    x.get_id() not in seen:
                seen.add(x.get_id())
                out.append(x)
            elif depth > 1 and isinstance(x, Obj) and not isinstance(
                    x, (ListV, DictV, SetV)):
                self._obj_strs(x, seen, out, depth - 1)

    def consts_int(self):
        out, seen = [], set()
        f = self.frame
        while f is not None:
            for k, v in sorted(dict.items(f.vars)):
                if ("v", f.fid, k) in self.info.writes:
                    continue
                if isinstance(v, z3.ExprRef) and v.sort() == Int and \
                        v.get_id() not in seen:
                    seen.add(v.get_id())
                    out.append(v)
            f = f.parent
        return out


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False
