"""Lemmas over the contracts of newlines.py/transcribers.py: a document is
handled alike in both newline styles (spec functions UNIX, DOSIFY, style, FLAT,
FLAT_DOS are the ones the contracts in s_transcriber speak about)."""
import z3

from pyvc.core import Val, Lst, NIL, snoc, cat, prefix, suffix
from pyvc.contracts import Lemma
from specs.s_transcriber import (UNIX, DOSIFY, FLAT, FLAT_DOS, style, DOS,
                                 CONTRACTS as _T)

x, c, u = z3.Strings("x c u")
nocr = z3.Not(z3.Contains(x, "\r"))
one = [z3.Length(c) == 1, c != "\r"]
xc = z3.Concat(x, c)


def dosify_step():
    return DOSIFY(xc) == z3.Concat(DOSIFY(x), DOSIFY(c))


class UnixOfDos(Lemma):
    """UNIX(DOSIFY(u)) == u for u without carriage returns; induction on u"""
    name = "lemma.unix-of-dosify-is-identity"

    def vcs(self):
        e = z3.StringVal("")
        yield "base", [], UNIX(DOSIFY(e)) == e
        ih = [nocr] + one + [UNIX(DOSIFY(x)) == x, dosify_step()]
        nl, rn = z3.StringVal("\n"), z3.StringVal("\r\n")
        # definition of UNIX on q+"\r\n" and on q+c, c no newline
        q = z3.String("q")
        yield ("step newline", [UNIX(q) == x],
               UNIX(z3.Concat(q, rn)) == z3.Concat(x, nl))
        yield ("step other", [UNIX(q) == x, c != "\n"] + one,
               UNIX(z3.Concat(q, c)) == z3.Concat(x, c))
        yield ("image of a character", one,
               DOSIFY(c) == z3.If(c == nl, rn, c))


class NoCrUnix(Lemma):
    """UNIX(u) == u for u without carriage returns"""
    name = "lemma.unix-leaves-unix-alone"

    def vcs(self):
        yield "by definition", [nocr], UNIX(x) == x


class StyleOfDos(Lemma):
    """a document without carriage returns is UNIX; its DOS rendering is
    detected as DOS as soon as it has a newline (induction on the length)"""
    name = "lemma.style-is-preserved"

    def vcs(self):
        nl = z3.StringVal("\n")
        yield "unix stays unix", [nocr], style(x) == "UNIX"
        yield ("base", [], style(DOSIFY(z3.StringVal(""))) == "UNIX")
        d = z3.String("d")                      # DOSIFY(x)
        ih = [z3.Contains(d, nl) == z3.Contains(x, nl),
              z3.Implies(z3.Contains(x, nl), style(d) == "DOS")]
        dn = z3.Concat(d, z3.StringVal("\r\n"))
        yield "step newline: has a newline", ih, z3.Contains(dn, nl)
        yield ("step newline: DOS, none before", ih +
               [z3.Not(z3.Contains(d, nl))], style(dn) == "DOS")
        yield ("step newline: DOS, one before", ih + [z3.Contains(d, nl)],
               style(dn) == "DOS")
        dc = z3.Concat(d, c)
        yield ("step other: newline iff before", ih + one + [c != nl],
               z3.Contains(dc, nl) == z3.Contains(x, nl))
        yield ("step other: DOS iff before", ih + one +
               [c != nl, z3.Contains(x, nl)], style(dc) == "DOS")


class Pieces(Lemma):
    """rendering the output pieces in DOS style is the DOS rendering of their
    concatenation, for pieces without carriage returns; induction on the list
    of pieces"""
    name = "lemma.rendering-pieces"

    def vcs(self):
        l = z3.Const("l", Lst)
        v = z3.Const("v", Val)
        ih = FLAT_DOS(l) == DOSIFY(FLAT(l))
        yield "base", [], FLAT_DOS(NIL) == DOSIFY(FLAT(NIL))
        t = Val.VStr(x)
        yield ("step text: output", [],
               FLAT(snoc(l, t)) == z3.Concat(FLAT(l), x))
        yield ("step text: rendering of a piece", [nocr], DOS(x) == DOSIFY(x))
        yield ("step text", [ih, DOS(x) == DOSIFY(x)],
               FLAT_DOS(snoc(l, t)) == DOSIFY(z3.Concat(FLAT(l), x)))
        yield ("step marker", [ih, z3.Not(Val.is_VStr(v))],
               z3.And(FLAT(snoc(l, v)) == FLAT(l),
                      FLAT_DOS(snoc(l, v)) == FLAT_DOS(l)))


CONTRACTS = [k for k in _T if k.label() in (
    "find_newline_type", "force_newline_type", "Transcriber.__init__",
    "Transcriber.edit_newlines", "Transcriber.get_destination")]
LEMMAS = [UnixOfDos(), NoCrUnix(), StyleOfDos(), Pieces()]
