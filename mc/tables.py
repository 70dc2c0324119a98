"""Book names of other languages and styles: custom name tables, with a plain-text oracle for what they name and how references are written."""
from model import *
import re

P = Bible("P", [("IISam", [2], {1}), ("Song", [2, 3, 1], {3}), ("Obad", [2], ()), ("IIIJn", [1, 2], {1})])

# Names of word characters and blanks: their references can be written and read. (abbreviation, title, least letters, extra names)
WRITABLE = {
    "German": {"Gen": ("1 Mo", "1 Mose", 1, []), "Obad": ("Obd", "Obadja", 2, ["Obd"]), "Psa": ("Ps", "Psalter", 2, []), "Jude": ("Jud", "Judasbrief", 3, []),
               "IISam": ("2 Sam", "2 Samuel", 1, []), "Song": ("Hohes Lied", "Hoheslied", 2, ["Hld", "Hohes Lied"]), "IIIJn": ("3Jh", "3 Johannes", 1, ["3 Jh"])},
    "French": {"Gen": ("Gn", "Genèse", 2, ["Gn"]), "Obad": ("Ab", "Abdias", 2, []), "Psa": ("Psm", "Psaumes", 2, ["Psm"]), "Jude": ("Jd", "Épître de Jude", 3, ["Jd"]),
               "IISam": ("2S", "2 Samuel", 1, []), "Song": ("Ct", "Cantique des cantiques", 3, ["Ct"]), "IIIJn": ("3Jn", "3 Jean", 1, ["3 Jn"])},
    "Greek": {"Gen": ("Γεν", "Γένεσις", 2, ["Γεν"]), "Obad": ("Αβδ", "Αβδιού", 2, []), "Psa": ("Ψαλ", "Ψαλμοί", 1, []), "Jude": ("Ιούδ", "Ιούδα", 2, []),
              "IISam": ("2Βασ", "2 Βασιλέων", 1, []), "Song": ("Άσμα", "Άσμα Ασμάτων", 3, []), "IIIJn": ("3Ιω", "3 Ιωάννου", 1, ["3 Ιω"])},
    "Russian": {"Gen": ("Быт", "Бытие", 2, []), "Obad": ("Авд", "Авдий", 2, []), "Psa": ("Пс", "Псалтирь", 2, []), "Jude": ("Иуд", "Послание Иуды", 2, ["Иуд"]),
                "IISam": ("2Цар", "2 Царств", 1, []), "Song": ("Песн", "Песнь Песней", 2, []), "IIIJn": ("3Ин", "3 Иоанна", 1, ["3 Ин"])},
    "Chinese": {"Gen": ("创", "创世记", 1, []), "Obad": ("俄", "俄巴底亚书", 1, []), "Psa": ("诗", "诗篇", 1, []), "Jude": ("犹", "犹大书", 1, []),
                "IISam": ("撒下", "撒母耳记下", 2, ["撒下"]), "Song": ("歌", "雅歌", 1, ["歌"]), "IIIJn": ("约三", "约翰三书", 2, ["约三"])},
    "one letter": {"Gen": ("G", "Genesis", 1, []), "Obad": ("O", "O", 1, []), "Psa": ("P", "P", 1, []), "Jude": ("J", "Jude", 1, []),
                   "IISam": ("2S", "2 S", 1, []), "Song": ("S", "Song", 1, []), "IIIJn": ("3J", "3 J", 1, [])},
    "numbered": {"Gen": ("1G", "1 Book of Moses", 2, ["1G"]), "Obad": ("2O", "2 O", 1, []), "Psa": ("3Ps", "3 Psalms of David", 2, ["3Ps"]), "Jude": ("4J", "4 Jude", 3, ["4J"]),
                 "IISam": ("1K", "1 K", 1, []), "Song": ("12S", "12 Songs", 4, ["12S"]), "IIIJn": ("2b", "2b or not 2b", 2, [])},
    "swapped": {"Gen": ("Jude", "Jude", 2, []), "Obad": ("Psa", "Psalms", 1, []), "Psa": ("Obad", "Obadiah", 3, []), "Jude": ("Gen", "Genesis", 1, []),
                "IISam": ("3Jn", "3 John", 1, ["3 Jn"]), "Song": ("Ob", "Ob", 2, []), "IIIJn": ("2Sam", "2 Samuel", 1, [])},
    "under_score": {"Gen": ("Gen_", "Gen_esis", 4, []), "Obad": ("_o", "_Obadiah_", 2, ["_o"]), "Psa": ("a0b", "a0b psalms", 3, []), "Jude": ("Ju", "Ju  de", 2, []),
                    "IISam": ("sam2b", "Sam2bis", 3, []), "Song": ("So9of", "So9of Songs", 2, []), "IIIJn": ("x", "x y z", 1, [])},
    "lower case": {"Gen": ("ß", "ßa", 1, []), "Obad": ("groß", "große bücher", 2, []), "Psa": ("pſ", "pſalm", 1, []), "Jude": ("ŉu", "ŉude", 2, []),
                   "IISam": ("2ßa", "2 ßamuel", 1, []), "Song": ("ﬁn", "ﬁne song", 2, ["ﬁn"]), "IIIJn": ("3ǰn", "3 ǰn", 1, [])},
}
# Names with other characters: they name their books, but the syntax of references has no place for them.
PLAIN = {
    "dots": {"Gen": ("Gen.", "Genesis", 2, ["Gen.", "G.n."]), "Exod": ("Ex.", "Exodus", 2, ["E.x."]), "ISam": ("1. Sam", "1. Samuel", 4, []), "IISam": ("2. Sam", "2. Samuel", 4, [])},
    "brackets": {"Gen": ("Gn", "Gen (esis)", 3, ["G[n]", "(G)"]), "Exod": ("Ex", "Exo+dus", 4, ["Ex*", "Ex?"]), "Lev": ("Lv", "Lev|iticus", 3, ["^Lv$", "{Lv}"]),
                 "Num": ("Nu", r"Nu\mbers", 2, [r"N\d", r"\w+"]), "Deut": ("Dt", "5 [Mose]", 3, ["$5"]), "Josh": ("J", "Jos{2}hua", 5, ["a|b", ".*"])},
    "apostrophes": {"Gen": ("Gn", "L'Genèse", 4, []), "Exod": ("Ex", "L'Exode", 3, []), "Lev": ("Lv", "Lévi-tique", 3, []), "Num": ("Nm", "Çi#k", 2, ["N&m", "N m~"])},
    "overlap": {"Gen": ("A", "Alpha", 1, []), "Exod": ("Al", "Alpine", 1, []), "Lev": ("B", "Beta", 2, ["A", "Alp"]), "Num": ("1C", "1 Beta", 1, []), "Deut": ("2C", "2 Beta", 2, [])},
}
BY_NAME = {**WRITABLE, **PLAIN}


def table(name):
    return {BibleBook[b]: (e[0], e[1], e[2], list(e[3])) for b, e in BY_NAME[name].items()}


def fold(s):
    """Letter case and runs of blanks do not matter."""
    return "".join(c.casefold() if len(c.casefold()) == 1 else c for c in s)


def resolve(name, text):
    """The first book, in canonical order, that the table gives this name to; None if there is none."""
    import names
    t = fold(text.strip())
    hits = [BibleBook[b] for b, e in BY_NAME[name].items() if names.matches((e[0], fold(e[1]), e[2], [fold(x) for x in e[3]]), t)]
    return next((b for b in BibleBook if b in hits), None)


def retitle(text, name, abbrev, nospace, default):
    """The text with every default book name replaced by that of the table."""
    i = 0 if abbrev else 1
    cut = (lambda s: re.sub(r"\s", "", s)) if nospace else (lambda s: s)
    pairs = {cut(default[b][i]): cut(BY_NAME[name][b.name][i]) for b in default if b.name in BY_NAME[name]}
    alts = "|".join(re.escape(x) for x in sorted(pairs, key=len, reverse=True))
    return re.sub(f"(?<!\\w)(?:{alts})(?![^\\W\\d])" if not nospace else f"(?<!\\w)(?:{alts})", lambda m: pairs[m.group()], text)
