"""C01: the transcriber's contract evaluated on the real class."""
import itertools
import random
from common import Driver, expect, same, Violation
from openformats.transcribers import Transcriber

D = Driver()


class Ref(object):
    """the abstract view: text still to read, pieces written, lines passed"""

    def __init__(self, src):
        k = src.find("\n")
        self.dos = k > 0 and src[k - 1] == "\r"
        self.src = src.replace("\r\n", "\n") if self.dos else src
        self.ptr, self.out = 0, []

    def text(self, dos):
        o = []
        for kind, t in self.out:
            if kind == "t":
                if dos:
                    t = t.replace("\r\n", "\n").replace("\n", "\r\n")
                o.append(t)
        return "".join(o)

    def remove(self, place):
        starts = [i for i, (k, t) in enumerate(self.out) if k == "s"]
        if place >= len(starts):
            return False
        a = starts[len(starts) - 1 - place]
        e = [i for i in range(a, len(self.out)) if self.out[i][0] == "e"]
        b = e[0] if e else len(self.out) - 1
        for i in range(a, b + 1):
            self.out[i] = ("n", "")
        return True


def run(case):
    src, ops = case
    t, r = Transcriber(src), Ref(src)
    same(t.source, r.src, "source after newline detection")
    for op, a in ops:
        n = len(r.src)
        if op == "copy":
            a = min(a, n - r.ptr)
            t.copy(a)
            r.out.append(("t", r.src[r.ptr:r.ptr + a]))
            r.ptr += a
        elif op == "copy_until":
            a = min(max(a, r.ptr), n)
            t.copy_until(a)
            r.out.append(("t", r.src[r.ptr:a]))
            r.ptr = a
        elif op == "skip":
            a = min(a, n - r.ptr)
            t.skip(a)
            r.ptr += a
        elif op == "skip_until":
            a = min(max(a, r.ptr), n)
            t.skip_until(a)
            r.ptr = a
        elif op == "copy_to_end":
            t.copy_to_end()
            r.out.append(("t", r.src[r.ptr:]))
            r.ptr = n
        elif op == "add":
            t.add(a)
            r.out.append(("t", a))
        elif op == "start":
            t.mark_section_start()
            r.out.append(("s", ""))
        elif op == "end":
            t.mark_section_end()
            r.out.append(("e", ""))
        elif op == "remove":
            if r.remove(a):
                t.remove_section(a)
        same(t.ptr, r.ptr, "position after %s" % op)
        same(t.line_number, 1 + r.src[:r.ptr].count("\n"),
             "line number after %s" % op)
    for enf in (None, "UNIX", "DOS"):
        dos = r.dos if enf is None else enf == "DOS"
        same(t.get_destination(enforce_newline_type=enf), r.text(dos),
             "output (%s)" % enf)


SOURCES = ["", "a", "\n", "ab\ncd\n", "a\r\nb\r\nc", "x\ny\r\nz", "\r\n",
           "héllo\nw\U0001f600rld\n\nend", "\n\n\r\n\n", "a\rb\nc", "\ra\r\nb"]
# systematic: every op sequence up to length 3 over a small op set
SMALL = [("copy", 0), ("copy", 2), ("skip", 1), ("copy_until", 3),
         ("skip_until", 2), ("copy_to_end", 0), ("add", "q\nr"),
         ("add", "a\r\nb"), ("start", 0), ("end", 0), ("remove", 0)]
i = 0
for src in SOURCES:
    for L in (1, 2, 3):
        for ops in itertools.product(SMALL, repeat=L):
            i += 1
            if i % D.shards == D.shard:
                D.check("ops-systematic", (src, list(ops)), run)
# sections: every arrangement of markers and texts, every place
SEC = [("start", 0), ("end", 0), ("add", "x"), ("add", "\n")]
for L in range(1, 7):
    for k, ops in enumerate(itertools.product(SEC, repeat=L)):
        if k % D.shards != D.shard:
            continue
        for place in range(0, 3):
            D.check("sections-exhaustive(len<=6)",
                    ("ab", list(ops) + [("remove", place), ("add", "z"),
                                        ("copy_to_end", 0)]), run)
rnd = D.rnd
while D.left() > 0 and D.n < (400000 if D.tier == "thorough" else 60000):
    src = "".join(rnd.choice(["a", "b", "\n", "\r\n", "\r", " ", "é", "\x85",
                              "\u2028", "\x0b", "<"])
                  for _ in range(rnd.randrange(0, 14)))
    ops = []
    for _ in range(rnd.randrange(1, 14)):
        ops.append(rnd.choice([
            ("copy", rnd.randrange(0, 5)), ("skip", rnd.randrange(0, 5)),
            ("copy_until", rnd.randrange(0, 16)),
            ("skip_until", rnd.randrange(0, 16)), ("copy_to_end", 0),
            ("add", rnd.choice(["", "t", "q\n", "\r\n", "a\r\nb\nc", "\r"])),
            ("start", 0), ("end", 0), ("remove", rnd.randrange(0, 4))]))
    D.check("ops-random", (src, ops), run)
D.finish("operation sequences on a Transcriber against the abstract view "
         "(text read, pieces written, lines passed); non-trivial: distinct "
         "(source, operations)")
