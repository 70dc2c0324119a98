"""Explicit oracle for book names (independent of regular expressions in the code under test)."""
from model import GOLDEN, BibleBook
import re

WS = " \t\n\r\f\v"
ROMAN = {"1": "i", "2": "ii", "3": "iii"}


def match_words(pattern, s):
    """How many characters of `pattern` are matched when `s` is exhausted (None if s does not match a prefix of it).
    A space of the pattern stands for any amount of whitespace, including none."""
    i = 0
    for j, ch in enumerate(pattern):
        if i == len(s):
            return j
        if ch == " ":
            while i < len(s) and s[i] in WS:
                i += 1
        elif s[i] == ch:
            i += 1
        else:
            return None
    return len(pattern) if i == len(s) else None


def matches(entry, s):
    """entry = [abbreviation, title, min chars, extras]; s is stripped and lower case."""
    _, title, minc, extras = entry
    title = title.lower()
    rests = [s]
    if title[:2] in ("1 ", "2 ", "3 "):
        num, title = title[0], title[2:]
        rests = []
        if s.startswith(num):
            rests.append(s[1:].lstrip(WS))
        rom = ROMAN[num]
        if s.startswith(rom) and len(s) > len(rom) and s[len(rom)] in WS:
            rests.append(s[len(rom):].lstrip(WS))
    for r in rests:
        j = match_words(title, r)
        if j is not None and j >= minc:
            return True
    return any(match_words(x.lower(), s) == len(x) for x in extras)


def resolve(s, names=None):
    """The set of book names (enum names) a text resolves to by the documented rules."""
    s = s.strip().lower()
    names = GOLDEN["names"] if names is None else names
    return {b for b, e in names.items() if matches(e, s)}


_cache = {}


def book_of(s):
    if s not in _cache:
        r = resolve(s)
        _cache[s] = BibleBook[min(r)] if r else None
    return _cache[s]
