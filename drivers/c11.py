"""C11: NewDumbXml against documents whose structure is known."""
from common import Driver, expect, same
from openformats.utils.xml import NewDumbXml, DumbXmlSyntaxError
from openformats.transcribers import Transcriber

D = Driver()
r = D.rnd
NAMES = ["a", "b", "string", "item", "xliff:g", "string-array", "é", "A1",
         "plurals", "x", "ab", "abc"]
TEXTS = ["", "", "hello", " ", "\n  ", "a > b", "]]>", "&lt;", "é\U0001f600",
         "a/b", "'", '"', "--", "-->", "/>", "=", "\\", "x\ty", "<![CDATA[<b>]]>",
         "<![CDATA[]]>", "<![CDATA[]]]>", "<![CDATA[a[0]] <b> ]>< ]] ]]>", "\u00a0"]
VALS = ["", "v", "a b", "<b>", "/", ">", "/>", "=", "&quot;", "é", "a\nb",
        "<![CDATA["]


class Node(object):
    pass


class Gen(object):
    def __init__(self):
        self.t = ""

    def put(self, s):
        p = len(self.t)
        self.t += s
        return p

    def text(self):
        s = "".join(r.choice(TEXTS) for _ in range(r.choice([1, 1, 2])))
        # a CDATA section has to be closed before anything else starts
        i = s.rfind("<![CDATA[")
        if i >= 0 and "]]>" not in s[i:]:
            s += "]]>"
        return s

    def node(self, depth, parent=None):
        n = Node()
        n.start = len(self.t)
        if r.random() < .12:
            n.tag, n.attributes, n.children = "!--", [], []
            n.position = self.put("<!--")
            body = r.choice(["", " c ", "<a>", "-", "- -", "é\n", "->", "</a>",
                             "]]>", "<![CDATA["])
            n.text_position = self.put(body)
            n.text = n.content = body
            n.content_end = self.put("-->")
            n.tail_position = len(self.t)
            return n
        n.tag = r.choice(NAMES)
        n.position = self.put("<" + n.tag)
        n.attributes = []
        seen = set()
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            self.put(r.choice([" ", "  ", "\n", "\t "]))
            k = r.choice(["k", "name", "a:b", "é", "x y"[:1], "quantity"])
            if k in seen:
                k += str(len(seen))
            seen.add(k)
            kp = self.put(k)
            self.put("=")
            q = r.choice("\"'")
            v = r.choice(VALS).replace(q, "") + r.choice(["", '"' if q == "'"
                                                         else "'"])
            self.put(q)
            vp = self.put(v)
            self.put(q)
            n.attributes.append((kp, k, vp, v))
        self.put(r.choice(["", "", " ", "\n"]))
        n.children = []
        if r.random() < .15:
            self.put("/" + r.choice(["", "", " "]) + ">")
            n.text = n.text_position = n.content = n.content_end = None
            n.tail_position = len(self.t)
            return n
        self.put(">")
        n.text_position = len(self.t)
        n.text = self.text()
        self.put(n.text)
        if depth > 0:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                c = self.node(depth - 1)
                c.tail = self.text()
                self.put(c.tail)
                c.end = len(self.t)
                n.children.append(c)
        n.content_end = len(self.t)
        n.content = self.t[n.text_position:n.content_end]
        self.put("</" + n.tag + r.choice(["", "", " "]) + ">")
        n.tail_position = len(self.t)
        return n


PROPS = ("position", "tag", "attributes", "text_position", "text",
         "content_end", "content", "tail_position", "tail", "end")


def compare(x, n, order):
    """asked in any order, every attribute says the same"""
    for p in order:
        same(getattr(x, p), getattr(n, p), "%s of <%s> at %d" % (
            p, n.tag, n.position))
    same(x.attrib, {k: v for _, k, _, v in n.attributes}, "attrib")
    kids = list(x.find_children())
    same([k.position for k in kids], [k.position for k in n.children],
         "children of <%s> at %d" % (n.tag, n.position))
    for k, c in zip(kids, n.children):
        compare(k, c, order)
    for p in order:
        same(getattr(x, p), getattr(n, p), "%s, asked again" % p)


def flat(n):
    out = []
    for c in n.children:
        out.append(c)
        out.extend(flat(c))
    return out


def case():
    g = Gen()
    lead = r.choice(["", "", "lead ", "<?xml?>"[:0], "\n"])
    g.put(lead)
    n = g.node(r.choice([0, 1, 2, 3]))
    n.tail = r.choice(["", "", "tail", "\n", "<![CDATA[<]]> t"])
    g.put(n.tail)
    n.end = len(g.t)
    more = r.choice(["", "", "<more>x</more>"])
    g.put(more)
    order = list(PROPS)
    r.shuffle(order)
    return (g.t, n, order)


class Case(object):
    def __init__(self, c):
        self.text, self.n, self.order = c

    def __repr__(self):
        return "%r asked for %s" % (self.text, ",".join(self.order))


def check(c):
    compare(NewDumbXml(c.text), c.n, c.order)
    x = NewDumbXml(c.text)
    tags = [n.tag for n in flat(c.n)]
    want = r.sample(tags, min(len(tags), 2))
    same([(d.tag, d.position) for d in x.find_descendants(*want)],
         [(n.tag, n.position) for n in flat(c.n)
          if not want or n.tag in want], "descendants %r" % (want,))
    same([(d.tag, d.position) for d in NewDumbXml(
        c.text).find_children(*want)],
        [(n.tag, n.position) for n in c.n.children
         if not want or n.tag in want], "children %r" % (want,))
    # inner tags found from their own start
    for n in flat(c.n)[:4]:
        compare(NewDumbXml(c.text, n.start), n, c.order)


def walk(x):
    x.attrib, x.text_position, x.text, x.content_end, x.content
    x.tail_position, x.tail, x.end
    s = x.source
    if x.text is not None:
        same(s[x.text_position:x.text_position + len(x.text)], x.text, "text")
        same(s[x.text_position:x.content_end], x.content, "content")
    same(s[x.tail_position:x.end], x.tail, "tail")
    for kp, k, vp, v in x.attributes:
        same(s[kp:kp + len(k)], k, "attribute name")
        same(s[vp:vp + len(v)], v, "attribute value")
    if x.tag != "!--":
        same(s[x.position:x.position + 1 + len(x.tag)], "<" + x.tag, "tag")
    at = None if x.text is None else x.text_position + len(x.text)
    for c in x:
        same(c.position, at, "children follow one another")
        walk(c)
        at = c.end
    if at is not None and x.tag != "!--":
        same(x.content_end, at, "the content ends after the last child")
        same(s[at:at + 2 + len(x.tag)], "</" + x.tag, "closing tag")


def broken(text):
    """whatever the text, only the syntax error is raised"""
    try:
        walk(NewDumbXml(text))
    except DumbXmlSyntaxError:
        pass


def mutate(t):
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(4)
        i = r.randrange(len(t) + 1)
        if k == 0:
            t = t[:i]
        elif k == 1:
            t = t[:i] + t[i + r.choice([1, 1, 2, 5]):]
        elif k == 2:
            t = t[:i] + r.choice(["<", ">", "/", "</", "\"", "<!--", "-->", "=",
                                  "<![CDATA[", "]]>", " ", "<a>", "</a>"]
                                 ) + t[i:]
        else:
            t = t[i:] + t[:i]
    return t


while D.left() > 0:
    c = case()
    D.check("documents", Case(c), check)
    D.check("broken", mutate(c[0]), broken)
D.finish("random XML documents with known structure, attributes asked in any "
         "order; the same documents damaged")
