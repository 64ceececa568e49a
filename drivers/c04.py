"""C04: plural rule names on every handler class."""
import inspect
import importlib
from common import Driver, expect, same
from openformats.exceptions import RuleError
from openformats.handlers import Handler
import docs

D = Driver()
rnd = D.rnd
RULES = {"zero": 0, "one": 1, "two": 2, "few": 3, "many": 4, "other": 5}
handlers = sorted(docs.handler_classes(), key=lambda c: c.__name__)
BADS = ["", "Zero", "ONE", " one", "one ", "ones", "0", "5", "othe", "éone",
        "=1", "=0", "zero\n", "MANY", "fews"]
BADN = [-1, 6, 7, 100, -5, 12, 255]


def good(case):
    cls, name, n = case
    h = docs.CLASSES[cls]
    for obj in (h, h()):
        same(obj.get_rule_number(name), n, "number of %s" % name)
        same(obj.get_rule_string(n), name, "name of %s" % n)
        same(obj.get_rule_string(obj.get_rule_number(name)), name, "back")
        same(obj.get_rule_number(obj.get_rule_string(n)), n, "back")


def bad(case):
    cls, kind, v = case
    h = docs.CLASSES[cls]
    f = h.get_rule_number if kind == "name" else h.get_rule_string
    try:
        r = f(v)
    except RuleError:
        return None
    return "%r accepted as a rule: %r" % (v, r)


for c in handlers:
    for k, n in RULES.items():
        D.check("good", (c.__name__, k, n), good)
    for v in BADS:
        D.check("bad names", (c.__name__, "name", v), bad)
    for v in BADN:
        D.check("bad numbers", (c.__name__, "number", v), bad)
for _ in range(3000):
    c = rnd.choice(handlers)
    w = "".join(rnd.choice("zerontwfmayh ") for _ in range(rnd.randrange(7)))
    if w not in RULES:
        D.check("bad names", (c.__name__, "name", w), bad)
    n = rnd.randrange(-1000, 1000)
    if not 0 <= n <= 5:
        D.check("bad numbers", (c.__name__, "number", n), bad)
D.finish("every handler class x the six rules, and names/numbers outside "
         "them; non-trivial: distinct case")
