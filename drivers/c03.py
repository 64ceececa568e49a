"""C03: string identity, evaluated on the real OpenString."""
import hashlib
import itertools
from common import Driver, expect, same
from openformats.strings import OpenString

D = Driver()
rnd = D.rnd


def ref(key, ctx, plural):
    h = hashlib.md5()
    h.update(key.encode("utf-8"))
    h.update(b":")
    h.update((ctx or "").encode("utf-8"))
    return h.hexdigest() + ("_pl" if plural else "_tr")


def one(case):
    key, strings, kw = case
    s = OpenString(key, strings, **kw)
    pl = isinstance(strings, dict) and len(strings) > 1
    pl = kw.get("pluralized", pl)
    want = ref(key, kw.get("context", ""), pl)
    same(s.pluralized, pl, "pluralized")
    same(s.template_replacement, want, "placeholder")
    same(s.template_replacement, want, "placeholder, asked twice")
    same(s.string_hash, want[:32], "hash")
    same(s.key, key, "key")
    for k, d in OpenString.DEFAULTS.items():
        same(getattr(s, k), kw.get(k, d), k)
    forms = dict(strings) if isinstance(strings, dict) else {5: strings}
    same(dict(s.strings), forms, "forms")
    if pl:
        same(dict(s.string), forms, "plural value")
    elif 5 in forms:
        same(s.string, forms[5], "value")


def pair(case):
    (k1, c1, p1), (k2, c2, p2) = case
    a = OpenString(k1, {1: "x", 5: "y"} if p1 else "x", context=c1)
    b = OpenString(k2, {1: "q", 5: "r"} if p2 else "z", context=c2, order=7)
    eq = a.template_replacement == b.template_replacement
    if (k1, c1 or "", p1) == (k2, c2 or "", p2):
        expect(eq, "equal key/context/plurality but different placeholders")
    elif (c1 or "") == (c2 or "") or k1 == k2 or p1 != p2:
        expect(not eq, "different identity, same placeholder")


KEYS = ["", "a", "b", "a.b", "ab", "A", " a", "a ", "key with space", "é",
        "e\u0301", "\U0001f600", "x" * 300, "x" * 301, "a:b", "a\n", "a\0",
        "0", "00", "a\\", "İ", "ß", "ss", "\ufeffa", "k" * 5000 + "1",
        "k" * 5000 + "2"]
CTX = ["", None, "c", "c ", "C", "ctx:2", "é", "y" * 400, "y" * 400 + "z",
       "\n"]
KWS = [{}, {"order": 0}, {"order": 3, "developer_comment": "dc"},
       {"flags": "f", "tags": ["t"], "occurrences": "o", "fuzzy": True,
        "obsolete": True, "character_limit": 10},
       {"pluralized": True}, {"pluralized": False}]
VALS = ["", "text", "é\n", {5: "o"}, {1: "a", 5: "b"},
        {0: "z", 1: "o", 2: "t", 3: "f", 4: "m", 5: "x"}]
for key, ctx, kw, v in itertools.product(KEYS, CTX, KWS, VALS):
    k = dict(kw)
    if ctx != "":
        k["context"] = ctx
    D.check("construct", (key, v, k), one)
ids = list(itertools.product(KEYS, CTX, (False, True)))
for a in ids:
    for b in (ids if D.tier == "thorough" else ids[::7]):
        D.check("pairs", (a, b), pair)
ALPH = ["a", "b", ":", " ", "\n", "é", "\\", ".", "\u0301", "\0"]
while D.left() > 0 and D.n < (600000 if D.tier == "thorough" else 90000):
    def w():
        return "".join(rnd.choice(ALPH) for _ in range(rnd.randrange(0, 6)))
    k1, c1 = w(), w()
    k2, c2 = rnd.choice([k1, w()]), rnd.choice([c1, w()])
    D.check("pairs-random", ((k1, c1, rnd.random() < .5),
                             (k2, c2, rnd.random() < .5)), pair)
D.finish("constructed strings and pairs of strings: placeholder against an "
         "independent md5 of key and context; non-trivial: distinct case")
