"""Reference interpreter for reference strings: an independent tokeniser, grammar and semantics.

interpret(bib, text, opt) returns
  ("ok", groups)         groups of model ranges
  ("syntax",)            not a well-formed list of references
  ("syntax", start, end) an unknown book name at [start, end)
  ("ref", start, end)    the single or double reference at [start, end) names something that does not exist / is not allowed"""
import re
from model import *
from names import book_of

DEFAULT_SEPS = dict(range="-", major=";", minor=",", std=":", alt=".")
NAME = re.compile(r"[0-9A-Za-z][0-9A-Za-z \t\n\r\f]*[A-Za-z]|[A-Za-z]")
NUM = re.compile(r"[0-9]+")
WSP = re.compile(r"[ \t\f\r\n]+")


def tokens(text, seps):
    """[(kind, value, start, end)] or None. Kinds: B book name, N number, V verse sep, R range sep, ; major, , minor."""
    kind = {seps["range"]: "R", seps["major"]: ";", seps["minor"]: ",", seps["std"]: "V", seps["alt"]: "V"}
    out, i = [], 0
    while i < len(text):
        m = WSP.match(text, i)
        if m:
            i = m.end()
            continue
        if text[i] in kind:
            out.append((kind[text[i]], text[i], i, i + 1))
            i += 1
            continue
        m = NAME.match(text, i)
        if m:
            out.append(("B", m.group(), i, m.end()))
            i = m.end()
            continue
        m = NUM.match(text, i)
        if m:
            out.append(("N", int(m.group()) if len(m.group()) < 4000 else 10 ** 9, i, m.end()))
            i = m.end()
            continue
        return None
    return out


SINGLE = [("B", "N", "V", "N"), ("B", "N"), ("B",), ("N", "V", "N"), ("N",)]


def grammar(toks):
    """[(separator before or None, [single refs as token lists])] or None."""
    out, i, n = [], 0, len(toks)
    sep = None
    while True:
        refs = []
        while True:
            for pat in SINGLE:
                if tuple(t[0] for t in toks[i:i + len(pat)]) == pat:
                    break
            else:
                return None
            refs.append(toks[i:i + len(pat)])
            i += len(pat)
            if len(refs) == 1 and i < n and toks[i][0] == "R":
                i += 1
                continue
            break
        out.append((sep, refs))
        if i == n:
            return out
        if toks[i][0] not in ";,":
            return None
        sep = toks[i][0]
        i += 1
        if i == n:          # one trailing separator is allowed
            return out


class BadRef(Exception):
    pass


def interpret(bib, text, opt, seps=DEFAULT_SEPS):
    toks = tokens(text, seps)
    g = grammar(toks) if toks else None
    if g is None:
        return ("syntax",)
    book = None     # current book
    chap = None     # current chapter, or None when bare numbers are chapters
    groups = [[]]

    def single(ref):
        nonlocal book, chap
        kinds = [t[0] for t in ref]
        nums = [t[1] for t in ref if t[0] == "N"]
        if kinds[0] == "B":
            e = book_of(ref[0][1])
            if e is None:
                return ("name", ref[0][2], ref[0][3])
            if e not in bib.bidx:
                return None
            book = bib.bidx[e]
        elif book is None:
            return None
        c = v = None
        if len(nums) == 2:
            c, v = nums
            chap = c
        elif len(nums) == 1:
            if bib.nch(book) == 1:
                c, v = 1, nums[0]
                if kinds[0] == "B":
                    chap = 1
            elif kinds[0] == "B":
                c, chap = nums[0], None
            elif chap is not None:
                c, v = chap, nums[0]
            else:
                c = nums[0]
        else:
            chap = None
        if c is not None and not 1 <= c <= bib.nch(book):
            return None
        if v is not None:
            return ((book, c, v), (book, c, v)) if bib.exists((book, c, v), opt) else None
        return (bib.first(book, c, opt), bib.last(book, c))

    for sep, refs in g:
        if sep == ";":
            chap = None
            groups.append([])
        rs = []
        for ref in refs:
            r = single(ref)
            if r and r[0] == "name":
                return ("syntax", *r[1:])
            if r is None:
                return ("ref", ref[0][2], ref[-1][3])
            rs.append(r)
        if len(rs) == 2:
            a, b = rs
            if a[0] > b[1]:
                a, b = b, a
            r = (a[0], b[1])
            if r[0][0] != r[1][0] and "M" not in opt:
                return ("ref", refs[0][0][2], refs[1][-1][3])
        else:
            r = rs[0]
        groups[-1].append(r)
    return ("ok", [x for x in groups if x])
