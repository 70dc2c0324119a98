"""Model of the natural grouping of a sequence of ranges (what regroup() must produce)."""


def natural_groups(bib, ranges, opt):
    out = []
    book = chap = None      # book and chapter of the last reference shown
    verse_level = False     # True if the last number shown is a verse number
    for r in ranges:
        (sb, sc, sv), (eb, ec, ev) = r
        spans_book = r[0] == bib.first(sb, None, opt) and r[1] >= bib.last(sb)
        spans_chap = r[0] == bib.first(sb, sc, opt) and r[1] >= bib.last(sb, sc)
        ends_chap = r[1] == bib.last(eb, ec) and r[0] <= bib.first(eb, ec, opt)
        ends_book = r[1] == bib.last(eb) and r[0] <= bib.first(eb, None, opt)
        if spans_book or spans_chap:
            new = True
        else:
            new = not (verse_level and book == sb and chap == sc and (eb, ec) == (sb, sc))
        if new or not out:
            out.append([r])
        else:
            out[-1].append(r)
        # What does the conventional string (start verses shown) end with?
        show_start_verse = not (spans_book or spans_chap) or not ends_chap
        whole = (sb == eb and spans_book and ends_book) or ((sb, sc) == (eb, ec) and spans_chap and ends_chap)
        if whole or r[0] == r[1]:
            book, chap = sb, (None if spans_book else sc)
            verse_level = show_start_verse
        elif ends_book:
            book, chap, verse_level = eb, None, False
        elif ends_chap and (eb != sb or not show_start_verse):
            book, chap, verse_level = eb, ec, False
        else:
            book, chap, verse_level = eb, ec, True
    return out
