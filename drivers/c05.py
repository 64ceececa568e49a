"""C05: JSON string bodies, against the standard library's json."""
import itertools
import json
from common import Driver, expect, same
from openformats.utils.json import escape, unescape

D = Driver()
rnd = D.rnd
JESC = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n",
        "\r": "\\r", "\t": "\\t"}


def ref(body):
    return json.loads('"%s"' % body, strict=False)


def enc(s):
    out = escape(s)
    same(out, "".join(JESC.get(c, c) for c in s), "escape")
    same(ref(out), s, "what JSON reads back")
    same(unescape(out), s, "unescape(escape(s))")


def dec(body):
    try:
        want = ref(body)
    except ValueError:
        return None
    same(unescape(body), want, "unescape")


for c in range(0x0, 0x3000):
    D.check("escape-1char", chr(c), enc)
S = ['"', "\\", "/", "\b", "\f", "\n", "\r", "\t", "u", "n", "0", "a", "é",
     "\U0001f600", "'", " ", "\x01"]
for n in (2, 3):
    for t in itertools.product(S, repeat=n):
        D.check("escape-exhaustive", "".join(t), enc)
for c in range(0x10000):
    if c % D.shards == D.shard:
        D.check("unescape-all-uXXXX", "\\u%04x" % c, dec)
        if c % 17 == 0:
            D.check("unescape-all-uXXXX", "\\u%04X!" % c, dec)
U = ['\\"', "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "u", "n", "a",
     "é", "/", "\\u0041", "\\ud83d", "\\ude00", "\\ud83d\\ude00", "00",
     "\\u00e9", "\U0001f600", "\\udbff\\udfff", "\\ud800\\udc00"]
for n in (1, 2, 3):
    for t in itertools.product(U, repeat=n):
        D.check("unescape-exhaustive", "".join(t), dec)
while D.left() > 0 and D.n < (900000 if D.tier == "thorough" else 150000):
    if rnd.random() < .6:
        D.check("unescape-random", "".join(
            rnd.choice(U) if rnd.random() < .8 else
            "\\u%04x" % rnd.randrange(0xd700, 0xe100)
            for _ in range(rnd.randrange(3, 14))), dec)
    else:
        D.check("escape-random", "".join(
            rnd.choice(S) if rnd.random() < .7 else chr(
                rnd.choice([rnd.randrange(0x20, 0xd800),
                            rnd.randrange(0xe000, 0x110000)]))
            for _ in range(rnd.randrange(3, 60))), enc)
D.finish("all characters below U+3000, all \\uXXXX, all sequences of up to 3 "
         "units from two alphabets, random longer ones, against json.loads; "
         "non-trivial: distinct input")
