"""C07: keys of strings in JSON documents."""
import json
from common import Driver, expect, same
import docs
from docs import J, jesc_key
from openformats.exceptions import ParseError
from openformats.formats.json import JsonHandler

D = Driver()
r = D.rnd
PIECES = ["a", "b", "", ".", "..", "\\\\", "\\\\.", "0", "..0..", "1", "a.b",
          "\\\"", "\\u002e", "\\u005c", "é", " ", "@", "\\n", "a\\\\"]


def rkey():
    return "".join(r.choice(PIECES) for _ in range(r.choice([1, 1, 2, 3, 4])))


def tree(depth):
    """a random value and the keys expected for its strings"""
    k = r.random()
    if depth == 0 or k < .35:
        return "s"
    if k < .7:
        keys = list(dict.fromkeys(rkey() for _ in range(r.choice([1, 2, 3]))))
        return [(q, tree(depth - 1)) for q in keys]
    return tuple(tree(depth - 1) for _ in range(r.choice([1, 2, 3, 11])))


def render(t, nest, out):
    if t == "s":
        out.append(nest)
        return '"t%d"' % len(out)
    if isinstance(t, list):
        return "{%s}" % ", ".join('"%s": %s' % (k, render(
            v, jesc_key(k) if nest is None else nest + "." + jesc_key(k),
            out)) for k, v in t)
    return "[%s]" % ", ".join(render(
        v, "%s..%d.." % (nest or "", i), out) for i, v in enumerate(t))


def keys(text_want):
    text, want = text_want
    _, ss = JsonHandler().parse(text)
    got = [s.key for s in ss]
    same(got, want, "keys of the strings")
    same(len(set(got)), len(got), "number of different keys")
    same([s.string for s in ss],
         ["t%d" % (i + 1) for i in range(len(ss))], "texts")
    same(len({s.template_replacement for s in ss}), len(ss),
         "number of different placeholders")


def inverse(k):
    e = JsonHandler._escape_key(k)
    same(e, k.replace("\\", "\0").replace(".", "\\.").replace("\0", "\\\\"),
         "escaped key")
    same(JsonHandler._unescape_key(e), k, "unescape(escape(key))")


def differ(pair):
    a, b = pair
    expect(JsonHandler._escape_key(a) != JsonHandler._escape_key(b),
           "two keys are escaped to the same text")


def dup_doc():
    k = r.choice([rkey(), "a", ""])
    v = lambda: r.choice(['"x"', "1", '{"q": "z"}', "[]", '"  "', "null",
                          '["s"]', "{}"])
    other = ", ".join('"%s": %s' % (x, v()) for x in {rkey() + "!", "z!!"})
    inner = '"%s": %s, %s,\n "%s": %s' % (k, v(), other, k, v())
    wrap = r.choice(["{%s}", '{"n": {%s}}', '[{%s}]', '{"z": [1, {%s}]}',
                     '["a", {"n.n": [[{%s}]]}]'])
    return wrap.replace("%s", inner)


def dup(text):
    try:
        JsonHandler().parse(text)
    except ParseError as e:
        expect("uplicate" in str(e), "refused for another reason: %s" % e)
        return
    expect(False, "a key that occurs twice in one dictionary is accepted")


for k in PIECES + ["\\", "\\.", ".\\", "\\\\..", "x\\"]:
    D.check("escape-key", k, inverse)
limit = 80000 if D.tier == "thorough" else 9000
while D.left() > 0 and D.n < limit:
    t = tree(r.choice([1, 2, 3]))
    if t != "s":
        want = []
        text = render(t, None, want)
        if text not in ("{}", "[]"):
            D.check("keys", (text, want), keys)
    D.check("duplicate-keys", dup_doc(), dup)
    a = "".join(r.choice("\\.a0\"é ") for _ in range(r.randrange(7)))
    b = "".join(r.choice("\\.a0\"é ") for _ in range(r.randrange(7)))
    D.check("escape-key", a, inverse)
    if a != b:
        D.check("injective", (a, b), differ)
D.finish("random nested documents with awkward keys and the keys their "
         "strings must have; duplicated keys at any depth; random texts as "
         "keys; non-trivial: distinct document or key")
