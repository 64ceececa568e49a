"""Contracts: openformats/strings.py  OpenString"""
import z3

from pyvc.core import sv, cat, Val
from pyvc.contracts import Contract, Lemma
from pyvc.interp import Obj, DictV
from pyvc.models import MD5

M = "openformats.strings"
DEFAULTS = {"context": "", "order": None, "character_limit": None,
            "occurrences": None, "developer_comment": "", "flags": "",
            "fuzzy": False, "obsolete": False, "tags": None}


def hash_of(key, context):
    return MD5(cat(key, ":", context))


def cls_of(ex):
    return ex.global_(ex.world.module(M), "OpenString")


def build(ex, cached=None):
    """an OpenString in any reachable state: __init__ is run on symbolic
    arguments (every non-empty subset of the six rules, or a plain text; with
    and without each keyword that matters)"""
    o = Obj(ex, cls_of(ex))
    key = z3.String("key")
    kind = ex.choose([True, True])
    if kind == 0:
        strings = z3.String("text")
        d = {5: strings}
    else:
        d = {}
        for r in range(6):
            if ex.choose([True, True]) == 0:
                d[r] = z3.String("text%d" % r)
        strings = DictV(ex, dict(d))
    kw = {}
    context, pl = "", (kind == 1 and len(d) > 1)
    k = ex.choose([True, True, True])
    if k == 0:
        context = kw["context"] = z3.String("context")
    elif k == 1:
        kw["context"] = None
    if kind == 1:
        j = ex.choose([True, True, True])
        if j < 2:
            pl = kw["pluralized"] = j == 0
    return o, key, strings, d, kw, context, pl


class Init(Contract):
    module, func = M, "OpenString.__init__"

    def setup(self, ex):
        o, key, strings, d, kw, context, pl = build(ex)
        kw = dict(kw)
        if ex.choose([True, True]) == 0:
            kw["order"] = z3.Int("order")
            kw["developer_comment"] = z3.String("devcomment")
            kw["character_limit"] = z3.Int("limit")
            kw["occurrences"] = z3.String("occ")
            kw["tags"] = z3.String("tags")
            kw["flags"] = z3.String("flags")
            kw["fuzzy"] = z3.Bool("fuzzy")
            kw["obsolete"] = z3.Bool("obsolete")
        return [o, key, strings], kw, dict(o=o, key=key, d=d, kw=kw, pl=pl,
                                           ctx=context)

    def ret(self, ex, env, v):
        o = env["o"]
        ex.require("key kept", ex.eq(ex.getattr(o, "key"), env["key"]))
        for k, dv in DEFAULTS.items():
            want = env["kw"].get(k, dv)
            got = ex.getattr(o, k)
            ex.require("%s is the given value or its default" % k,
                       ex.eq(got, want) if want is not None else got is None)
        ex.require("pluralized iff more than one form, unless given",
                   ex.truth(ex.getattr(o, "pluralized")) == env["pl"])
        st = ex.getattr(o, "_strings")
        items = ex.hget(st, "ditems") if isinstance(st, DictV) else None
        ex.require("exactly the given forms under their rules",
                   isinstance(items, dict) and
                   sorted(norm(k) for k in items) == sorted(env["d"]))
        if isinstance(items, dict):
            for k, x in items.items():
                ex.require("each form is the given text", sv(x) == sv(
                    env["d"][norm(k)]) if norm(k) in env["d"] else False)


def norm(k):
    return getattr(k, "v", k)


class Attr(Contract):
    """properties of a constructed OpenString"""
    module = M
    callable_ = False

    def setup(self, ex):
        o, key, strings, d, kw, context, pl = build(ex)
        init = ex.find_func(M, "OpenString.__init__")
        ex.callstack.append("setup")
        try:
            ex.call_func(init, [o, key, strings], dict(kw))
        finally:
            ex.callstack.pop()
        env = dict(o=o, key=key, d=d, pl=pl, ctx=context)
        if self.func != "OpenString._get_string_hash":
            # any earlier use may have filled the cache
            if ex.choose([True, True]) == 0:
                ex.getattr(o, "string_hash")
        return [o], {}, env


class GetHash(Attr):
    func = "OpenString._get_string_hash"

    def ret(self, ex, env, v):
        ex.require("md5 of key and context, nothing else",
                   sv(v) == hash_of(env["key"], env["ctx"])
                   if ex.is_str(v) else False)


class StringHash(GetHash):
    func = "OpenString.string_hash"


class Replacement(Attr):
    func = "OpenString.template_replacement"

    def ret(self, ex, env, v):
        ex.require("hash plus the plural/singular suffix",
                   sv(v) == cat(hash_of(env["key"], env["ctx"]),
                                "_pl" if env["pl"] else "_tr")
                   if ex.is_str(v) else False)


class StringProp(Attr):
    func = "OpenString.string"

    def setup(self, ex):
        r = Attr.setup(self, ex)
        env = r[2]
        if not env["pl"] and 5 not in env["d"]:
            ex.assume(False)
        return r

    def ret(self, ex, env, v):
        if env["pl"]:
            items = ex.hget(v, "ditems") if isinstance(v, DictV) else None
            ok = isinstance(items, dict) and sorted(
                norm(k) for k in items) == sorted(env["d"])
            ex.require("a plural string gives all its forms", ok)
            if ok:
                for k, x in items.items():
                    ex.require("each form unchanged",
                               sv(x) == sv(env["d"][norm(k)]))
        else:
            ex.require("a plain string gives its text",
                       sv(v) == sv(env["d"][5]) if ex.is_str(v) else False)


class Lem(Lemma):
    """equal replacement <=> equal key:context and plurality, up to md5
    collisions (md5 assumed injective on the two texts)"""
    name = "lemma.replacement-identifies-key-and-context"

    def vcs(self):
        k1, c1, k2, c2 = z3.Strings("k1 c1 k2 c2")
        h1, h2 = hash_of(k1, c1), hash_of(k2, c2)
        L = [z3.Length(h1) == 32, z3.Length(h2) == 32]
        nocoll = z3.Implies(h1 == h2, cat(k1, ":", c1) == cat(k2, ":", c2))
        r1, r2 = cat(h1, "_tr"), cat(h2, "_tr")
        yield ("same context: distinct keys, distinct replacement",
               L + [nocoll, c1 == c2, r1 == r2], k1 == k2)
        yield ("plural and plain never collide", L,
               cat(h1, "_tr") != cat(h2, "_pl"))
        yield ("a function of key and context", L + [k1 == k2, c1 == c2],
               r1 == r2)
        yield ("fixed length", L, z3.Length(r1) == 35)


CONTRACTS = [Init(), GetHash(), StringHash(), Replacement(), StringProp()]
LEMMAS = [Lem()]
