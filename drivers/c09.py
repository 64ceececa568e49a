"""C09: subtitle files (SRT, WebVTT)."""
from common import Driver, expect, same
import docs
from docs import Doc, check_doc, retext
from openformats.exceptions import ParseError
from openformats.formats.srt import SrtHandler
from openformats.formats.vtt import VttHandler

D = Driver()
r = D.rnd
LINES = ["Hello", "é world", "- who?", "<i>x</i>", "1", "00:00:01,000",
         "a  b", " lead", "日本語", "{\\an8}x", "tail ", "WEBVTT", "..", "-->"[:2],
         "\U0001f600", "\u2028x", "a\tb", "x\u00a0", "\x0bq"]


def text(n):
    t = "\n".join(r.choice(LINES) for _ in range(n))
    return t


def stamp(sep, hours=True):
    h = r.choice([0, 1, 12, 99, 100])
    s = "%02d:%02d" % (r.randrange(60), r.randrange(60))
    ms = r.choice(["000", "001", "500", "999", "5", "05", "50", None])
    out = ("%02d:" % h if hours else "") + s
    if ms is None:
        return out, out + ".000"
    return out + sep + ms, out + "." + ms.ljust(3, "0")


def arrow(a, b, extra):
    sp = r.choice([" ", " ", "  ", "\t"])
    t = a + sp + "-->" + sp + b
    if extra:
        t += r.choice([" X1:1 X2:2", " align:start", " position:10%  line:1"])
    return t


def srt_doc():
    d = Doc()
    d.put(r.choice(["", "", "\n", "\n\n", " \n\n"]))
    order = 0
    for i in range(r.choice([1, 1, 2, 3, 4, 6])):
        if i:
            d.put(r.choice(["\n\n", "\n\n", "\n\n\n", "\n\n \n\n", "\n\n\n\n",
                            "\n\n  "]))
        order += r.choice([1, 1, 1, 2, 10])
        a, ea = stamp(",")
        b, eb = stamp(",")
        o = r.choice(["%d", "%d", "%d", "0%d", "%d "]) % order
        t = r.choice(["", "", "", " ", "\t  "]) + text(r.choice(
            [1, 1, 2, 3])).rstrip()
        if not t.strip():
            t = "x"
        d.put(o + "\n" + arrow(a, b, r.random() < .2) + "\n")
        d.string(t, o.strip(), order=order, occurrences="%s,%s" % (ea, eb))
    d.put(r.choice(["", "\n", "\n\n", "\n\n\n", " "]))
    return d


def vtt_doc():
    d = Doc("WEBVTT" + r.choice(["", " title", " - é"]) + "\n\n")
    if r.random() < .3:
        d.put(r.choice(["NOTE a comment", "NOTE\nmany\nlines",
                        "STYLE\n::cue { color: x }"]) + "\n\n")
    seen = set()
    for i in range(r.choice([1, 1, 2, 3, 4, 6])):
        if i:
            d.put(r.choice(["\n\n", "\n\n", "\n\n\n", "\n\n\n\n"]))
        while True:
            h = r.random() < .6
            a, ea = stamp(".", h)
            b, eb = stamp(".", r.random() < .6)
            tm = arrow(a, b, r.random() < .3)
            if tm not in seen:
                break
        seen.add(tm)
        ident = r.choice(["", "", "1\n", "intro\n", "two words\n"])
        t = r.choice(["", "", "", " ", "\t  "]) + text(r.choice(
            [1, 1, 2, 3])).rstrip()
        if not t.strip():
            t = "x"
        if r.random() < .1:
            d.put(ident + tm)           # a cue without text
            continue
        d.put(ident + tm + "\n")
        d.string(t, tm, occurrences="%s,%s" % (ea, eb))
    if not d.spans:
        tm = "00:01.000 --> 00:02.000"
        d.put("\n\n" + tm + "\n").string("only", tm)
    d.put(r.choice(["", "\n", "\n\n"]))
    return d


def tr(s):
    return retext(s, r.choice(["T", "two\nlines", "é", "x y", s.string + "!"]))


def check(H):
    def f(doc):
        check_doc(H, doc, same, expect, translate=tr)
    return f


def blocks(text):
    return [b.strip("\n") for b in text.split("\n\n") if b.strip()]


def subset(H):
    """strings missing from the stringset: exactly their blocks disappear"""
    def f(doc):
        t, ss = H().parse(doc.text)
        for mask in ({0}, set(range(0, len(ss), 2)), {len(ss) - 1},
                     set(range(1, len(ss)))):
            keep = [s for i, s in enumerate(ss) if i in mask]
            if not keep:
                continue
            out = H().compile(t, keep)
            t2, ss2 = H().parse(out)
            same([(s.key, s.string, s.occurrences) for s in ss2],
                 [(s.key, s.string, s.occurrences) for s in keep],
                 "strings left after removing %r" % (mask,))
            for s in ss:
                if s not in keep:
                    expect(s.template_replacement not in out,
                           "placeholder of a removed string left")
            want = [b for b in blocks(t) if not any(
                s.template_replacement in b for s in ss if s not in keep)]
            for s in keep:
                want = [b.replace(s.template_replacement, s.string)
                        for b in want]
            same([b.strip() for b in blocks(out)],
                 [b.strip() for b in want], "blocks after %r" % (mask,))
    return f


# ---- malformed files
def bad(H):
    def f(text):
        try:
            H().parse(text)
        except ParseError as e:
            return None
        return "malformed file accepted"
    return f


BAD_SRT = ["1\n00:00:01,000 --> 00:00:02,000\n\n",
           "x\n00:00:01,000 --> 00:00:02,000\nhi\n",
           "0\n00:00:01,000 --> 00:00:02,000\nhi\n",
           "-1\n00:00:01,000 --> 00:00:02,000\nhi\n",
           "1\n00:00:01,000 -> 00:00:02,000\nhi\n",
           "1\n00:00:01,000 --> \nhi\n", "1\n00:00:01,000\nhi\n",
           "1\n00:01,000 --> 00:00:02,000\nhi\n",
           "1\n00:00:01,000 --> 00:xx:02,000\nhi\n",
           "1\n00:00:01,000 --> 00:00:02,0,0\nhi\n",
           "1\n00:00:01,000 --> 00:00:02,000\na\n\n"
           "1\n00:00:01,000 --> 00:00:02,000\nb\n",
           "2\n00:00:01,000 --> 00:00:02,000\na\n\n"
           "1\n00:00:01,000 --> 00:00:02,000\nb\n", "just text\n",
           "1\n00:00:01,000 --> 00:00:02,000\n   \n"]
BAD_VTT = ["", "WEBVTT\n\n", "no header\n\n00:01.000 --> 00:02.000\nx\n",
           "WEBVTT\n\n00:01.000 -->\nx\n", "WEBVTT\n\n-->\nx\n",
           "WEBVTT\n\nxx:01.000 --> 00:02.000\nx\n",
           "WEBVTT\n\n00:01.000 --> 1\nx\n",
           "WEBVTT\n\n00:01.000 --> 00:aa.000\nx\n",
           "WEBVTT\n\n00:00:00:01.000 --> 00:02.000\nx\n",
           "WEBVTT\n\n00:01.000--> 00:02.000\nx\n"]
for t in BAD_SRT:
    D.check("srt-malformed", t, bad(SrtHandler))
for t in BAD_VTT:
    D.check("vtt-malformed", t, bad(VttHandler))


def mutate_line(text):
    """errors name the line they are on"""
    import re
    doc, k = text
    lines = doc.split("\n")
    arrows = [i for i, l in enumerate(lines) if "-->" in l]
    i = arrows[k % len(arrows)]
    lines[i] = lines[i].replace("-->", "->", 1)
    try:
        SrtHandler().parse("\n".join(lines))
    except ParseError as e:
        m = re.search(r"[Tt]imings? (?:on|at) line (\d+)", str(e))
        expect(m, "no line number in %r" % str(e))
        same(int(m.group(1)), i + 1, "reported line")
        return
    return "accepted"


limit = 60000 if D.tier == "thorough" else 16000
while D.left() > 0 and D.n < limit:
    a, b = srt_doc(), vtt_doc()
    D.check("srt", a.text, lambda _: check(SrtHandler)(a))
    D.check("vtt", b.text, lambda _: check(VttHandler)(b))
    D.check("srt-subset", a.text, lambda _: subset(SrtHandler)(a))
    D.check("vtt-subset", b.text, lambda _: subset(VttHandler)(b))
    D.check("srt-error-line", (a.text, r.randrange(6)), mutate_line)
D.finish("random subtitle files with the cues expected in them; cue subsets; "
         "malformed files; non-trivial: distinct file")
