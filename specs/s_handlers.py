"""Contracts: openformats/handlers.py  plural rule names"""
import z3

from pyvc.core import sv, iv
from pyvc.contracts import Contract
from pyvc.interp import Unsupported

M = "openformats.handlers"
RULES = {"zero": 0, "one": 1, "two": 2, "few": 3, "many": 4, "other": 5}


def cls_of(ex, module=M, name="Handler"):
    return ex.global_(ex.world.module(module), name)


class RuleNumber(Contract):
    module, func = M, "Handler.get_rule_number"

    def setup(self, ex):
        s = z3.String("rule")
        return [cls_of(ex), s], {}, {"s": s}

    def ret(self, ex, env, v):
        s = env["s"]
        ex.require("one of the six rule names", z3.Or(
            [s == k for k in RULES]))
        for k, n in RULES.items():
            ex.require("%s is rule %d" % (k, n),
                       z3.Implies(s == k, iv(v) == n)
                       if ex.is_int(v) else False)

    def exc(self, ex, env, r):
        ex.require("only RuleError escapes", r.name() == "RuleError")
        ex.require("only for unknown names", z3.And(
            [env["s"] != k for k in RULES]))


    def call(self, ex, args, kwargs):
        s = ex.resolve_any((list(args) + list(kwargs.values()))[-1])
        if not ex.is_str(s):
            raise Unsupported("rule name is no text")
        s, e = sv(s), z3.IntVal(-1)
        for k, n in RULES.items():
            e = z3.If(s == k, z3.IntVal(n), e)
        if not ex.branch(z3.Or([s == k for k in RULES])):
            rule_error(ex)
        return e


def rule_error(ex):
    ex.raise_(ex.global_(ex.world.module("openformats.exceptions"),
                         "RuleError"))


class RuleString(Contract):
    module, func = M, "Handler.get_rule_string"

    def setup(self, ex):
        n = z3.Int("number")
        return [cls_of(ex), n], {}, {"n": n}

    def ret(self, ex, env, v):
        n = env["n"]
        ex.require("one of the six rule numbers", z3.And(0 <= n, n <= 5))
        for k, i in RULES.items():
            ex.require("rule %d is %s" % (i, k),
                       z3.Implies(n == i, sv(v) == k)
                       if ex.is_str(v) else False)

    def exc(self, ex, env, r):
        ex.require("only RuleError escapes", r.name() == "RuleError")
        ex.require("only for unknown numbers", z3.Or(env["n"] < 0,
                                                     env["n"] > 5))


    def call(self, ex, args, kwargs):
        n = ex.resolve_any((list(args) + list(kwargs.values()))[-1])
        if not ex.is_int(n):
            raise Unsupported("rule number is no number")
        n = iv(n)
        if not ex.branch(z3.And(0 <= n, n <= 5)):
            rule_error(ex)
        return rule_name(n)


def rule_name(n):
    e = z3.StringVal("other")
    for k, i in RULES.items():
        if k != "other":
            e = z3.If(n == i, z3.StringVal(k), e)
    return e


CONTRACTS = [RuleNumber(), RuleString()]
