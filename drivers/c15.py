"""C15: ICU plural expressions."""
import re
from common import Driver, expect, same
from openformats.exceptions import ParseError
from openformats.utils.icu import (ICUParser, ICUCompiler, ICUString,
                                   normalize_plural_rule,
                                   PLURAL_FORMAT_NUMERIC, PLURAL_FORMAT_STRING)
from openformats.formats.json import (ArbHandler, JsonHandler,
                                      StructuredJsonHandler)

D = Driver()
r = D.rnd
NAMES = ["zero", "one", "two", "few", "many", "other"]
NUM = {"=0": 0, "=1": 1, "=2": 2}
WORDS = ["a", "{n}", "it's", " ", "  x", "{a {b} c}", "one {x}", "é", ",",
         "\\n", "plural", "other", "{}", "#", "=1", "'", "\\\"", "b.c", "\u00a0",
         "\\u0041", "=1 {y}", "count, plural,", "\\\\", "other {z}"]
SPACE = ["", " ", "  ", "\\n ", "\\n  ", "\\t "]
WS = ["", " ", "  "]


def text():
    return "".join(r.choice(WORDS) for _ in range(r.choice([0, 1, 1, 2, 4])))


def plural(numeric=True, dup=False):
    rules = r.sample(NAMES, r.choice([1, 2, 2, 3, 6]))
    if numeric:
        out = []
        for x in rules:
            i = NAMES.index(x)
            out.append("=%d" % i if i < 3 and r.random() < .4 else x)
        rules = out
    if "other" not in rules and r.random() < .7:
        rules.append("other")
    forms = [(x, text()) for x in rules]
    name = r.choice(["n", "cnt", "item_count", "plural", "one", "A-b_9", "l",
                     "plural_one", "other", "c", "t", "0"])
    # (escape sequences around a form are white space as well, but not
    # within "name, plural," )
    head = r.choice(WS) + "{" + r.choice(WS) + name + r.choice(WS) + "," + \
        r.choice(WS) + "plural" + r.choice(WS) + "," + r.choice(SPACE)
    body, spans = "", []
    for i, (x, t) in enumerate(forms):
        sep = r.choice(WS)
        body += "%s%s{%s}" % (x, sep, t)
        if i < len(forms) - 1:
            body += r.choice(SPACE) or (" " if t == "" else "")
    tail = r.choice(SPACE) + "}" + r.choice(WS)
    return head, body, tail, forms


def number(x):
    return NUM[x] if x in NUM else NAMES.index(x)


def parse_ok(inp):
    head, body, tail, forms, numeric = inp
    value = head + body + tail
    p = ICUParser(allow_numeric_plural_values=numeric).parse("the.key", value)
    if not numeric and re.search(r"=[012] *{", body):
        expect(p is None, "a plural with numeric rules: %r" % p)
        return
    expect(isinstance(p, ICUString), "no plural: %r" % (p,))
    same(p.key, "the.key", "key")
    same(p.pluralized, True, "pluralized")
    same(p.string_info, [(x, "{%s}" % t) for x, t in forms], "forms")
    want = {}
    for x, t in forms:
        want[number(x)] = t
    same(p.strings_by_rule, want, "texts by rule")
    same(p.current_position, len(head), "position")
    same(p.string_to_replace, body, "text to replace")
    same(p.syntax_by_rule, {number(x): (PLURAL_FORMAT_NUMERIC if x in NUM
                                        else PLURAL_FORMAT_STRING)
                            for x, t in forms}, "spelling by rule")
    # writing back
    c = ICUCompiler()
    out = c.serialize_strings(want, syntax_by_rule=p.syntax_by_rule)
    same(out, " ".join("%s {%s}" % ("=%d" % n if p.syntax_by_rule.get(n) ==
                                    PLURAL_FORMAT_NUMERIC else NAMES[n], t)
                       for n, t in want.items()), "written forms")
    q = ICUParser().parse("k", head + out + tail)
    same(q.strings_by_rule, want, "forms after writing and parsing")
    plain = c.serialize_strings(want, delimiter="\\n ")
    same(plain, "\\n ".join("%s {%s}" % (NAMES[n], t)
                           for n, t in want.items()), "written by name")
    q = ICUParser(numeric).parse("k", head + plain + tail)
    if q is not None or not re.search(r"=[012] *{", plain):
        same(q.strings_by_rule, want, "forms after writing by name")


def placeholders(inp):
    rules, numeric = inp
    h = "0123456789abcdef0123456789abcdef_pl"
    info = [("=%d" % i if i in numeric else NAMES[i], "{%s_%d}" % (h, k))
            for k, i in enumerate(rules[0])]
    s = ICUString("k", info, True)
    out = ICUCompiler().serialize_placeholder_string(s, rules[1])
    same(out, " ".join("%s {%s_%d}" % (
        "=%d" % n if n in numeric and n in rules[0] else NAMES[n], h, k)
        for k, n in enumerate(rules[1])), "placeholders of the target rules")


def refused(value):
    for numeric in (True, False):
        try:
            p = ICUParser(numeric).parse("k", value)
        except ParseError:
            continue
        if not numeric and re.search(r"=[012] *{", value):
            expect(p is None, "accepted: %r" % p)
            continue
        expect(False, "%r gives %r" % (value, p))


def broken():
    head, body, tail, forms = plural(numeric=False)
    k = r.randrange(8)
    if k == 0:
        return head + body + r.choice(["x", "x {a", "{", "1 ", ";"]) + tail
    if k == 1:
        return head + "x " + body + tail
    if k == 2:
        return head + r.choice(["some", "=3", "=10", "One", "oneother",
                                "=01"]) + " {a}" + tail
    if k == 3:
        return head + body + " lots {a}" + tail
    if k == 4:
        return head + tail
    if k == 5:
        return head + r.choice(["{a}", "one", "one a", "other}"]) + tail
    if k == 6:
        return head + "foo {a} " + body + tail
    return head + body + "}" + tail


def other(value):
    for numeric in (True, False):
        p = ICUParser(numeric).parse("k", value)
        expect(p is None, "%r is a plural: %r" % (value, p))


def random_value():
    bits = ["{", "}", "n", ",", "plural", "select", " ", "one", "other", "a",
            "=1", "few {b}", "other {c}", "{n, plural,", "}}", "'", "\\n"]
    return "".join(r.choice(bits) for _ in range(r.randrange(12)))


def never_else(value):
    for numeric in (True, False):
        try:
            p = ICUParser(numeric).parse("k", value)
        except ParseError:
            continue
        if p is None:
            continue
        c, t = p.current_position, p.string_to_replace
        expect(len(p.string_info) > 0, "a plural without forms")
        same(value[c:c + len(t)], t, "text at its position")
        expect(t.startswith(p.string_info[0][0]), "starts with its rule: %r",
               t)
        last = value.rindex("}")
        expect(value[c + len(t) - 1] == "}" and
               "}" not in value[c + len(t):last], "ends with a form: %r", t)
        at = 0
        for rule, body in p.string_info:
            at = t.index(body, t.index(rule, at)) + len(body)
            expect(rule in NAMES or rule in NUM, "rule %r", rule)
            expect(body[0] == "{" and body[-1] == "}" and
                   body.count("{") == body.count("}"), "form %r", body)


def in_json(inp):
    """the same through the JSON formats"""
    head, body, tail, forms = inp
    src = '{"k": "%s"}' % (head + body + tail)
    if any(not t.strip() for x, t in forms):
        return
    for H in (JsonHandler, StructuredJsonHandler, ArbHandler):
        doc = src if H is not StructuredJsonHandler else '{"k": {"string": "%s"}}' % (
            head + body + tail)
        t, ss = H().parse(doc)
        same(len(ss), 1, "strings")
        s = ss[0]
        if re.search(r"=[012] *{", body) and H is not ArbHandler:
            expect(not s.pluralized, "numeric plural in %s", H.__name__)
            continue
        if not s.pluralized:
            expect(False, "%s: not a plural", H.__name__)
        want = {}
        for x, tx in forms:
            want[number(x)] = tx
        same(s.string, want, "%s: forms" % H.__name__)
        expect(doc.replace(body, s.template_replacement) == t,
               "%s: template %r", H.__name__, t)


while D.left() > 0:
    for _ in range(6):
        h, b, t, f = plural()
        D.check("parse", (h, b, t, f, r.random() < .7), parse_ok)
        D.check("random", random_value(), never_else)
    D.check("refused", broken(), refused)
    D.check("not a plural", r.choice([
        "", "{", "x", "{a}", "{a, b}", "{n, select, one {a}}", "a {n, plural, one {b}}",
        "{n, plural}", "{n plural, one {a}}", "{, plural, one {a}}",
        "{n, Plural, one {a}}", "{n, plural, one {a", "{n, plurals, one {a}}",
        "{n, selectordinal, one {a} other {b}}", "plural, one {a}"]), other)
    rs = [r.sample(range(5), r.randrange(5)) + [5],
          sorted(r.sample(range(5), r.randrange(5))) + [5]]
    rs[0].sort()
    D.check("placeholders", (rs, r.sample([0, 1, 2], r.randrange(4))),
            placeholders)
    D.check("json", plural(), in_json)

D.finish("parse/serialize of random plural expressions and of broken ones")
