"""C20: damaged files are refused with a ParseError and nothing else."""
import random
import traceback
from common import Driver
from openformats.exceptions import ParseError
from openformats.formats.android import AndroidHandler
from openformats.formats.android_unescaped import AndroidUnescapedHandler
from openformats.formats.stringsdict import StringsDictHandler
from openformats.formats.json import (
    JsonHandler, ArbHandler, StructuredJsonHandler, ChromeI18nHandler,
    ChromeI18nHandlerV3)
from openformats.formats.srt import SrtHandler
from openformats.formats.vtt import VttHandler
from openformats.formats.po import PoHandler
from openformats.formats.plaintext import PlaintextHandler

D = Driver()
r = D.rnd
XML = ["<", ">", "/", "</", "\"", "'", "<!--", "-->", "=", "<![CDATA[", "]]>",
       " ", "name", "<item>", "</item>", "quantity", "\n", "é", "other", "few"]
JS = ["{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "null", "NaN", "1", "-",
      "e", ".", "tru", "true", " ", "\n", "é", "Infinity", "plural", "one",
      "=1", "{a, plural, ", "other {x}", "'", "string", "@", "\\ud800"]
SUB = ["\n", "\n\n", "-->", "00:00:01,000", ":", ",", ".", "1", "99", " ",
       "WEBVTT", "NOTE", "é", "\r\n", "abc", "00:00:00.000 --> 00:00:01.000"]
PO = ["\"", "msgid", "msgstr", "msgid_plural", "msgstr[0]", "msgctxt", "\n",
      "\\", "#", "[", "]", " ", "é", "#~", "#,", "\"\"", "plural=", "2"]

SEEDS = [
    (AndroidHandler, XML, [
        '<?xml version="1.0"?>\n<resources>\n  <!-- c -->\n  <string name="a">'
        'A</string>\n  <plurals name="p">\n    <item quantity="one">1</item>\n'
        '    <item quantity="other">2</item>\n  </plurals>\n  <string-array '
        'name="r"><item>x</item><item>y</item></string-array>\n</resources>\n',
        '<resources/>', '<resources></resources>']),
    (AndroidUnescapedHandler, XML, [
        '<resources>\n<string name="a">A <b>b</b> &lt; <xliff:g id="1">%s'
        '</xliff:g></string><string name="b"><![CDATA[<i>x</i>]]></string>\n'
        '</resources>']),
    (StringsDictHandler, XML + ["<key>", "<string>", "<dict>", "</dict>"], [
        '<?xml version="1.0"?>\n<plist version="1.0">\n<dict>\n  <key>k</key>\n'
        '  <dict>\n    <key>NSStringLocalizedFormatKey</key>\n    <string>%#@v@'
        '</string>\n    <key>v</key>\n    <dict>\n      <key>'
        'NSStringFormatSpecTypeKey</key>\n      <string>NSStringPluralRuleType'
        '</string>\n      <key>NSStringFormatValueTypeKey</key>\n      <string>'
        'd</string>\n      <key>one</key>\n      <string>a</string>\n      '
        '<key>other</key>\n      <string>b</string>\n    </dict>\n  </dict>\n'
        '</dict>\n</plist>\n']),
    (JsonHandler, JS, [
        '{"a": "b", "c": {"d": ["x", {"e": "y"}]}, "p": "{n, plural, one '
        '{1} other {2}}", "n": 1.5, "t": true, "z": null}', '[]', '{}',
        '["a"]']),
    (ArbHandler, JS, [
        '{"@@locale": "en", "a": "b", "@a": {"description": "d", "context": '
        '"c"}, "p": "{n, plural, one {1} other {2}}", "@p": {}}']),
    (StructuredJsonHandler, JS, [
        '{"a": {"string": "b", "context": "c", "developer_comment": "d", '
        '"character_limit": 3}, "p": {"string": "{n, plural, one {1} other '
        '{2}}"}}']),
    (ChromeI18nHandler, JS, [
        '{"a": {"message": "b", "description": "c"}, "p": {"message": "{n, '
        'plural, one {1} other {2}}"}}']),
    (ChromeI18nHandlerV3, JS, [
        '{"a": {"message": "b", "description": "c"}}']),
    (SrtHandler, SUB, [
        '1\n00:00:01,000 --> 00:00:02,000\nHello\n\n2\n00:00:02,000 --> '
        '00:00:03,000\nWorld\nagain\n']),
    (VttHandler, SUB, [
        'WEBVTT\n\n1\n00:01.000 --> 00:02.000\nHello\n\nNOTE x\n\n00:00:02.000'
        ' --> 00:00:03.000 align:left\nWorld\n']),
    (PoHandler, PO, [
        'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n'
        '"Plural-Forms: nplurals=2; plural=(n != 1);\\n"\n\n# c\n#: x:1\n'
        'msgctxt "x"\nmsgid "a"\nmsgstr "b"\n\nmsgid "c"\nmsgid_plural "d"\n'
        'msgstr[0] "e"\nmsgstr[1] "f"\n']),
    (PlaintextHandler, SUB, ["a\n\nb\r\n c "]),
]


def mutate(t, words):
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(5)
        i = r.randrange(len(t) + 1)
        if k == 0 and r.random() < .5:
            t = t[:i]
        elif k == 1:
            t = t[:i] + t[i + r.choice([1, 1, 2, 5, 20]):]
        elif k in (2, 0):
            t = t[:i] + r.choice(words) + t[i:]
        elif k == 3:
            j = r.randrange(len(t) + 1)
            i, j = min(i, j), max(i, j)
            t = t[:i] + t[i:j] + t[i:j] + t[j:] if j - i < 60 else t
        else:
            w = r.choice(words)
            t = t[:i] + w + t[i + len(w):]
    return t


class Case(object):
    def __init__(self, cls, text):
        self.cls, self.text = cls, text

    def __repr__(self):
        return "%s: %r" % (self.cls.__name__, self.text)


def check(c):
    h = c.cls()
    try:
        template, stringset = h.parse(c.text)
        list(stringset)
    except ParseError:
        return


while D.left() > 0:
    cls, words, seeds = r.choice(SEEDS)
    D.check(cls.__name__, Case(cls, mutate(r.choice(seeds), words)), check)
D.finish("damaged files of every text format")
