"""C12: XML resource files (Android, stringsdict, customizable XML)."""
from common import Driver, expect, same
from docs import Doc, check_doc, retext
from openformats.exceptions import ParseError
from openformats.formats.android import AndroidHandler
from openformats.formats.android_unescaped import AndroidUnescapedHandler
from openformats.formats.customizable_xml import CustomizableXMLHandler
from openformats.formats.stringsdict import StringsDictHandler

D = Driver()
r = D.rnd
RULES = ["zero", "one", "two", "few", "many", "other"]
WORDS = ["hello", "é", "日本", "<b>bold</b>", "%1$s", "a &amp; b", "\\'q\\'",
         "<![CDATA[<i>]]>", "<xliff:g id=\"x\">%s</xliff:g>", "x", "  y",
         "<br/>", "\\n", "&lt;", "two\n lines", "\U0001f600", "{}", "]]>",
         "<a href=\"u?a=1\">l</a>", "%d", "}", "@string/x", "\u00a0.",
         "<u><i>in</i>ner</u> t"]
NAMES = ["a", "b", "app_name", "é", "a.b", "x[0]", "x", "c\\d", "a:b", "%s",
         "1", "name with space", "z]"]


def text():
    t = "".join(r.choice(WORDS) + r.choice(["", " ", " "])
                for _ in range(r.choice([1, 1, 2, 3])))
    return t if t.strip() else "t"


def ws(n=None):
    return r.choice(["\n    ", "\n    ", "\n\n  ", " ", "", "\n\t"])


def esc(name):
    return name.replace("\\", "\\\\").replace("[", "\\[")


class XDoc(Doc):
    def __init__(self, *a):
        Doc.__init__(self, *a)
        self.fmt, self.tags = {}, []

    def __repr__(self):
        return repr(self.text)


def attr(d):
    return "".join(r.choice([' {}="{}"', " {}='{}'", '  {}="{}"']).format(
        k, v) for k, v in d)


def android_doc(canonical=True):
    d = XDoc(r.choice(["", '<?xml version="1.0" encoding="utf-8"?>\n',
                       "<!-- c -->\n"]))
    d.locale = None
    d.put("<resources")
    if r.random() < .2:
        d.put(' xmlns:tools="t" tools:locale="')
        d.locale = (d.n, "en")
        d.put('en"')
    d.put(">")
    comment, used = "", {}
    for i in range(r.choice([0, 1, 2, 3, 4, 6])):
        d.put(ws())
        k = r.random()
        name = r.choice(NAMES) + r.choice(["", "", str(i)])
        prod = r.choice(["", "", "", "tablet", "x"])
        at = [("name", name)] + ([("product", prod)] if prod else [])
        r.shuffle(at)
        if k < .15:
            comment = r.choice([" c %d " % i, "", "<b>", " é\n"])
            d.put("<!--" + comment + "-->")
            continue
        if k < .25:
            d.put(r.choice(["<color name=\"c\">#fff</color>", "<dimen/>",
                            "<string-array name=\"e\"></string-array>"]))
            if not d.text.endswith("array>"):
                continue
            continue
        if k < .32:
            d.put("<string%s>no</string>" % attr(
                at + [("translatable", "false")]))
            comment = ""
            continue
        if k < .38:
            d.put("<string%s>%s</string>" % (attr(at), r.choice(
                ["", " ", "\n"])))
            continue
        tag = "string" if k < .7 else "plurals" if k < .85 else "string-array"
        if tag == "string-array":
            d.put("<string-array%s>" % attr(at))
            some = False
            if any((esc(name) + "[%d]" % j, p) in used
                   for j in range(5) for p in (prod,)):
                d.put("</string-array>")
                continue
            size = r.choice([1, 2, 3])
            for j in range(size):
                d.put(ws() + "<item>")
                # (white space may move when the last item is an empty one)
                if j < size - 1 and r.random() < .15:
                    d.put(r.choice(["", " "]))
                else:
                    key = esc(name) + "[%d]" % j
                    used[(key, prod)] = [tag]
                    d.string(text(), key, context=prod,
                             developer_comment=comment)
                    d.tags.append(tag)
                    some = True
                d.put("</item>")
            d.put(ws() + "</string-array>")
            if some:
                comment = ""
            continue
        key = esc(name)
        if (key, prod) in used:
            if tag in used[(key, prod)]:
                continue
            prod += tag
            if tag in used.get((key, prod), ()):
                continue
        used.setdefault((key, prod), []).append(tag)
        d.tags.append(tag)
        if tag == "string":
            d.put("<string%s>" % attr(at))
            d.string(text(), key, context=prod, developer_comment=comment)
            d.put("</string>")
        else:
            rules = [x for x in RULES[:-1] if r.random() < .4] + ["other"]
            r.shuffle(rules)
            end = r.choice(["\n  ", "\n", ""])
            ind = r.choice(["  ", "    ", ""])
            forms = {RULES.index(x): text() for x in rules}
            form = '<item quantity="{}">{}</item>'
            raw = (end + ind).join(form.format(x, forms[RULES.index(x)])
                                   for x in rules)
            d.put("<plurals%s>%s" % (attr(at), end + ind))
            d.fmt[len(d.spans)] = (end + ind, form)
            d.string(raw, key, forms, context=prod, developer_comment=comment)
            d.put(end + "</plurals>")
        comment = ""
    d.put(ws() + "</resources>\n")
    return d


def tr(s):
    def new(t):
        return r.choice(["T", "é " + t, "<b>x</b>", "two\nl", "{0} %s", "}{"])
    if s.pluralized:
        return retext(s, {k: new(t) for k, t in s.string.items()})
    return retext(s, new(s.string))


def render(d):
    index = {id(x): i for i, x in enumerate(d.spans)}

    def f(t, x):
        if not t.pluralized:
            return t.string
        sep, form = d.fmt[index[id(x)]]
        return sep.join(form.format(RULES[k], v) for k, v in t.string.items())
    return f


def android(H):
    def f(d):
        t, ss = check_doc(H, d, same, expect, translate=tr, render=render(d))
        if d.locale is not None:
            i, old = d.locale
            same(H().compile(t, ss, language_info={"code": "xx_YY"}),
                 d.text[:i] + "xx_YY" + d.text[i + len(old):],
                 "compile for another locale")
        keep_some(H, d, t, ss)
    return f


def sig(s):
    return (s.string, s.pluralized)


def keep_some(H, d, t, ss):
    """strings missing from the stringset leave no trace"""
    for mask in (range(0, len(ss), 2), range(1, len(ss), 2), ()):
        for src in (True, False):
            keep = [s for i, s in enumerate(ss) if i in mask]
            out = H().compile(t, keep, is_source=src)
            try:
                t2, ss2 = H().parse(out)
            except ParseError as e:
                expect(False, "without strings: %s in %r" % (e, out))
            got = [sig(s) for s in ss2]
            same(got, [sig(s) for s in keep], "strings left of %r" % (out,))
            for s in ss:
                expect(s.template_replacement not in out,
                       "placeholder left in %r", out)


def dup(c):
    """two strings never get the same placeholder"""
    try:
        t, ss = AndroidHandler().parse(c)
    except ParseError:
        return
    ids = [s.template_replacement for s in ss]
    same(len(set(ids)), len(ids), "distinct placeholders among %r" % (
        [(s.key, s.context, s.pluralized) for s in ss],))


def dup_doc():
    t = "<resources>"
    for i in range(r.choice([2, 3, 4])):
        n = r.choice(["a", "a", "a[0]", "b"])
        p = r.choice(["", "", ' product="plurals"', ' product="string"',
                      ' product="p"'])
        k = r.randrange(3)
        if k == 0:
            t += '<string name="%s"%s>x%d</string>' % (n, p, i)
        elif k == 1:
            t += ('<plurals name="%s"%s><item quantity="other">x%d</item>'
                  '</plurals>') % (n, p, i)
        else:
            t += ('<string-array name="%s"%s><item>x%d</item><item>y</item>'
                  '</string-array>') % (n, p, i)
    return t + "</resources>"


def unescaped(d):
    """the same file, refused when quotes are not escaped"""
    import re
    from openformats.utils.xml import NewDumbXml
    try:
        t, ss = AndroidUnescapedHandler().parse(d.text)
    except ParseError:
        t = None
    t0, ss0 = AndroidHandler().parse(d.text)
    if t is None:
        txt = [x for s in ss0 for x in
               (s.string.values() if s.pluralized else [s.string])]
        expect(any("'" in x or '"' in x for x in txt),
               "refused without quotes")
        return
    same(t, t0, "template")
    same([(s.key, s.string, s.template_replacement) for s in ss],
         [(s.key, s.string, s.template_replacement) for s in ss0], "strings")
    same(AndroidUnescapedHandler().compile(t, ss), d.text, "compile")


def bad_quotes(c):
    d, bad = c
    try:
        AndroidUnescapedHandler().parse(d)
    except ParseError:
        expect(bad, "refused")
        return
    expect(not bad, "accepted an unescaped quote")


def quotes_doc():
    parts, bad = [], False
    for _ in range(r.choice([1, 2, 3])):
        w = r.choice(["a", "é", "\\'", '\\"', "'", '"', "<b>'</b>", " x "])
        if w in "'\"":
            bad = bad or not parts or not parts[-1].endswith("\\")
        parts.append(w)
    t = "".join(parts)
    if not t.strip():
        t, bad = "x", False
    if r.random() < .5:
        return ("<resources><string name='a'>%s</string></resources>" % t, bad)
    return ("<resources><plurals name='a'><item quantity='one'>%s</item>"
            "<item quantity='other'>z</item></plurals></resources>" % t, bad)


# ------------------------------------------------------------ stringsdict
def sd_text():
    t = "".join(r.choice(["is a mouse", "%d mice", "é", "a &amp; b", "x",
                          "%#@other@", " ", "日本", "b]", "&lt;b&gt;"])
                for _ in range(r.choice([1, 1, 2, 3])))
    return t if t.strip() else "t"


def sd_doc():
    d = XDoc(r.choice(["", '<?xml version="1.0"?>\n<plist version="1.0">\n',
                       "<plist>"]))
    tail = "</plist>" if "<plist" in d.text else ""
    d.put("<dict>")
    nl = r.choice(["\n  ", "\n", "", "\n\t"])
    mains = r.sample(["k1", "é k", "NEW %d", "x", "a:b"], 3)
    for m in mains[:r.choice([0, 1, 2, 3])]:
        d.put(nl + "<key>%s</key>" % m + nl + "<dict>")
        vs = r.sample(["mouse", "room", "v1", "x"], r.choice([1, 1, 2]))
        pre, suf = r.choice([("", ""), ("", ""), ("Look! ", " there"),
                             ("é ", ""), ("", " %d x")])
        has = r.random() < .9
        ref = r.choice(vs)
        if has:
            d.put(nl + "<key>NSStringLocalizedFormatKey</key>" + nl +
                  "<string>")
            d.put("%#@" + ref + "@" if not (pre or suf) else "")
            d.cut = None
            if pre or suf:
                # the part around the variable moves into the forms
                d.orig_at = d.n
                d.put("%#@" + ref + "@")
                d.pre = getattr(d, "pre", []) + [(d.orig_at, pre, suf,
                                                 len("%#@" + ref + "@"))]
            d.put("</string>")
        else:
            pre = suf = ""
        for v in vs:
            d.put(nl + "<key>%s</key>" % v + nl + "<dict>" + nl +
                  "<key>NSStringFormatSpecTypeKey</key>" + nl +
                  "<string>NSStringPluralRuleType</string>" + nl +
                  "<key>NSStringFormatValueTypeKey</key>" + nl +
                  "<string>d</string>")
            if not (pre or suf) and r.random() < .1:   # no forms: a placeholder to keep
                d.put("".join(nl + "<key>%s</key>" % x + nl +
                              "<string></string>" for x in ("one", "other")))
            else:
                rules = [x for x in RULES[:-1] if r.random() < .4] + ["other"]
                r.shuffle(rules)
                raw = {RULES.index(x): sd_text() for x in rules}
                p, q = (pre, suf) if v == ref else ("", "")
                forms = {k: p + t + q for k, t in raw.items()}
                d.put(nl)
                form = "<key>{}</key>" + nl.replace("{", "{{") + \
                    "<string>{}</string>"
                d.fmt[len(d.spans)] = (nl, form, raw)
                d.string(nl.join(form.format(RULES[k], t)
                                 for k, t in forms.items()), m, forms,
                         context=v)
            d.put(nl + "</dict>")
        d.put(nl + "</dict>")
    d.put(nl + "</dict>" + tail + "\n")
    return d


def sd_source(d):
    """the document as written: prefix and suffix around the variable"""
    texts = []
    for i in range(len(d.spans)):
        nl, form, raw = d.fmt[i]
        texts.append(nl.join(form.format(RULES[k], t)
                             for k, t in raw.items()))
    t, out, p = d.text, [], 0
    cuts = [(a, b, s) for (a, b, _, _, _), s in zip(d.spans, texts)]
    for at, pre, suf, n in getattr(d, "pre", []):
        cuts.append((at, at + n, pre + t[at:at + n] + suf))
    for a, b, s in sorted(cuts):
        out += [t[p:a], s]
        p = b
    return "".join(out) + t[p:]


def sd_check(d):
    H = StringsDictHandler
    src = sd_source(d)
    t, ss = H().parse(src)
    same([(s.key, s.context, s.string, s.pluralized) for s in ss],
         [(x[2], x[4]["context"], x[3], True) for x in d.spans], "strings")
    ids = d.ids()
    same([s.template_replacement for s in ss], ids, "placeholders")
    cells = []
    for i, h in enumerate(ids):
        nl = d.fmt[i][0]
        cells.append("<tx_awesome_key_tag></tx_awesome_key_tag>" + nl +
                     "<tx_awesome_string_tag>%s</tx_awesome_string_tag>" % h)
    same(t, d.fill(cells), "template")
    same(H().compile(t, ss), d.text, "compile")
    new = [tr(s) for s in ss]
    out = []
    for s, i in zip(new, range(len(ss))):
        nl, form, _ = d.fmt[i]
        out.append(nl.join(form.format(RULES[k], v)
                           for k, v in s.string.items()))
    same(H().compile(t, new), d.fill(out), "compile with translations")
    for mask in (range(0, len(ss), 2), range(1, len(ss), 2)):
        keep = [s for i, s in enumerate(ss) if i in mask]
        c = H().compile(t, keep)
        for s in keep:
            for v in s.string.values():
                expect(">" + v + "<" in c, "%r is missing in %r", v, c)
        for s in ss:
            expect(s.template_replacement not in c, "placeholder left")
    if "\n" in src:
        from docs import dos
        td, sd = H().parse(dos(src))
        same(td, dos(t), "template of the DOS document")
        same(H().compile(td, sd), dos(d.text), "compile of the DOS document")


# ------------------------------------------------------- customizable XML
def cx_doc():
    nm = dict(zip(("root_name", "section_name", "section_id_name",
                   "string_name", "string_key_name", "base_string_name",
                   "variant_string_name", "variant_string_id_name"), r.choice([
                       ("strings", "section", "name", "string", "key", "base",
                        "variant", "context"),
                       ("root", "group", "id", "str", "k", "b", "alt", "c")])))
    d = XDoc(r.choice(["", "<?xml version='1.0'?>\n"]))
    d.names = {} if nm["root_name"] == "strings" else nm
    d.put("<%s>" % nm["root_name"])
    n = 0
    for s in range(r.choice([0, 1, 2])):
        sec = "s%d" % s
        d.put(ws() + "<%s %s=\"%s\">" % (nm["section_name"],
                                         nm["section_id_name"], sec))
        for i in range(r.choice([0, 1, 2])):
            n += 1
            key = r.choice(["k", "é", "a.b"]) + str(n)
            d.put(ws() + "<%s %s=\"%s\">" % (nm["string_name"],
                                             nm["string_key_name"], key))
            tags = ["", "m", "f"][:r.choice([1, 2, 3])]
            r.shuffle(tags)
            for v in tags:
                t = r.choice(["base"] if not v else ["variant"])
                tag = nm[t + "_string_name"]
                d.put(ws() + "<" + tag + (" %s=\"%s\"" % (
                    nm["variant_string_id_name"], v) if v else "") + ">")
                if r.random() < .85:
                    d.string(r.choice(["x", "é", "a > b", " t ",
                                       "l<b>in</b>", "two\nl"]),
                             key + ("::" + v if v else ""), context=sec)
                d.put("</%s>" % tag)
            d.put(ws() + "</%s>" % nm["string_name"])
        d.put(ws() + "</%s>" % nm["section_name"])
    d.put(ws() + "</%s>" % nm["root_name"] + "\n")
    return d


def cx_check(d):
    check_doc(lambda: CustomizableXMLHandler(**d.names), d, same, expect,
              translate=tr)


SECTIONS = [
    ("android", android_doc, android(AndroidHandler)),
    ("android", android_doc, android(AndroidHandler)),
    ("duplicates", dup_doc, dup),
    ("unescaped", android_doc, unescaped),
    ("quotes", quotes_doc, bad_quotes),
    ("stringsdict", sd_doc, sd_check),
    ("customizable", cx_doc, cx_check),
]

if __name__ == "__main__":
    while D.left() > 0:
        for name, mk, fn in SECTIONS:
            D.check(name, mk(), fn)
    D.finish("random resource files: strings, plurals, arrays, comments, empty "
             "and untranslatable strings; all strings, new texts, some strings "
             "missing")
