"""C20: separator settings - all assignments of a character pool to the five roles, all orders of setting them."""
from interp import *
import string

BOUNDS = {"quick": "all 2520 assignments of 7 characters (- ; , : . \" \\) to the five roles; every ASCII punctuation character (but _) and 24 others (other scripts, full width) in every single role; "
                   "all 120 orders of setting 3 target assignments through clashing intermediate states; all histories of <= 2 settings over 3 values per role, with "
                   "and without parsing in between; throughout, references made and written under earlier settings are written again",
          "thorough": "as quick plus all 2520 assignments of two further pools, 3 more targets, all histories of <= 3 settings"}
ASSUMPTIONS = ["separators are single, pairwise distinct punctuation characters; while two roles share a character nothing is claimed",
               "the interpreter agrees with the parser for the default separators (decided by C15)"]
ROLES = ["range", "major", "minor", "std", "alt"]
ATTR = dict(range="range_sep", major="major_list_sep", minor="minor_list_sep", std="verse_sep_std", alt="verse_sep_alt")
S = Bible("S", [("Gen", [3, 3, 3], {2}), ("Jude", [3], ()), ("Rev", [2, 3], ())])
POOL = "-;,:.\"\\"
OTHER = "–·¶§"
MORE = "：；，。、～—―‐・．－؛،۔٫᛫¡\u2026\U00010101"      # of other scripts, full width, beyond the basic plane

# texts over the default separators, translated role by role
TEMPLATES = ["Gen 1:1", "Gen 1.1", "Gen 1:1-2", "Gen 1-2:3", "Gen 1:1,2", "Gen 1;2", "Gen 1:2;2", "Gen 1:2,3-2.1;3,2:1", "Jude 2-3;1", "Rev 2:1, 3; 1;",
             "Gen;Rev", "Gen 3:1 - 1:2 , 3", "Rev 2:4"]
LISTS = [[[((0, 1, 1), (0, 1, 2)), ((0, 1, 3), (0, 1, 3))], [((0, 2, 1), (0, 2, 2)), ((0, 3, 1), (0, 3, 3))], [((1, 1, 2), (1, 1, 3))],
          [((2, 1, 1), (2, 2, 1)), ((2, 2, 3), (2, 2, 3))]],
         [[((0, 1, 1), (0, 3, 3))], [((2, 2, 1), (2, 2, 1)), ((0, 1, 2), (0, 2, 1))]]]
FMTS = [dict(), dict(alt_sep=True), dict(nospace=True), dict(abbrev=True, alt_sep=True, nospace=True), dict(preserve_groups=False)]


def assign(seps, order=ROLES):
    d = bible_data()
    for r in order:
        setattr(d, ATTR[r], seps[r])


def translate(text, seps):
    m = {DEFAULT_SEPS[r]: seps[r] for r in ROLES}
    return "".join(m.get(c, c) for c in text)


def outcome(text):
    try:
        return ("ok", S.tn(BibleRangeList(text)))
    except BibleRefParsingError as e:
        return ("perr", e.start_pos, e.end_pos)
    except Exception as e:
        return ("other", type(e).__name__)


def agree(k, text, seps, hist):
    got = outcome(text)
    w = interpret(S, text, "", seps)
    k.transitions += 1
    k.traces += 1
    if w[0] == "ok":
        good = got == w
    elif w[0] == "ref":
        good = got == ("perr", w[1], w[2])
    else:
        good = got[0] == "perr" and 0 <= got[1] <= got[2] <= len(text)
    if not good:
        k.fail("text is not read with the current separators", text=text, seps=str(seps), got=got, want=w, history=hist)


BASE = {}
KEPT = []


def base():
    """Strings with the default separators."""
    if not BASE:
        for i, l in enumerate(LISTS):
            for j, f in enumerate(FMTS):
                BASE[i, j] = S.L(l).str(**f)
        BASE["v"] = [S.V((0, 2, 3)).str(), S.V((0, 2, 3)).str(alt_sep=True), S.R(((0, 1, 2), (0, 2, 1))).str(), S.R(((0, 1, 2), (0, 2, 1))).str(alt_sep=True)]
    return BASE


def probe(k, seps, hist, pool, full=True):
    """Compare everything observable under the current settings."""
    k.case = (seps, hist)
    k.states += 1
    d = bible_data()
    for r in ROLES:
        k.eq(getattr(d, ATTR[r]), seps[r], "setting", role=r, history=hist)
    b = base()
    if not KEPT:        # made, and written, under whatever settings the process saw first
        KEPT.append([[S.L(l) for l in LISTS], S.V((0, 2, 3)), S.R(((0, 1, 2), (0, 2, 1)))])
    lists, kv, kr = KEPT[0]
    for i, l in enumerate(LISTS):
        for j, f in enumerate(FMTS):
            t = S.L(l).str(**f)
            k.eq(lists[i].str(**f), t, "a list written before under other settings is written in another way", seps=str(seps), fmt=str(f), history=hist)
            k.eq(t, translate(b[i, j], seps), "formatting does not use the configured separators", seps=str(seps), fmt=str(f), history=hist)
            if full or j == 0:
                w = [[r] for g in l for r in g] if f.get("preserve_groups") is False else l
                x = outcome(t)
                k.transitions += 1
                if x[0] != "ok" or (x[1] != l if f.get("preserve_groups") is not False else [r for g in x[1] for r in g] != [r for g in l for r in g]):
                    k.fail("string does not round-trip", text=t, seps=str(seps), got=x, history=hist)
    v = [S.V((0, 2, 3)).str(), S.V((0, 2, 3)).str(alt_sep=True), S.R(((0, 1, 2), (0, 2, 1))).str(), S.R(((0, 1, 2), (0, 2, 1))).str(alt_sep=True)]
    k.eq([kv.str(), kv.str(alt_sep=True), kr.str(), kr.str(alt_sep=True)], v, "a reference written before under other settings is written in another way", history=hist)
    k.eq(v, [translate(t, seps) for t in b["v"]], "formatting does not use the configured separators", seps=str(seps), history=hist)
    for t in TEMPLATES if full else TEMPLATES[7:10]:
        agree(k, translate(t, seps), seps, hist)
    for c in pool:
        agree(k, f"Gen 1{c}2", seps, hist)
        if full:
            agree(k, f"Gen 1{seps['std']}1{c} 2", seps, hist)
            agree(k, f"Rev{c}1", seps, hist)


def start():
    S.install()
    bibleref.flags = BibleFlag.NONE
    base()


def perms(k, pool, shard, n):
    start()
    for i, p in enumerate(itertools.permutations(pool, 5)):
        if i % n == shard:
            seps = dict(zip(ROLES, p))
            assign(seps)
            probe(k, seps, "all roles in order", pool, full=(i % 7 == 3 or k.tier == "thorough"))
    assign(DEFAULT_SEPS)
    probe(k, DEFAULT_SEPS, "restored", POOL)
    k.sample(f"{seps}")


def single(k, chars, full, shard, n):
    """Every character in every role, the other roles as by default (the role it belonged to gets the freed character)."""
    start()
    for i, c in enumerate(chars):
        if i % n != shard:
            continue
        for r in ROLES:
            seps = dict(DEFAULT_SEPS)
            for r2 in ROLES:
                if seps[r2] == c:
                    seps[r2] = seps[r]
            seps[r] = c
            assign(seps)
            probe(k, seps, f"{c} as {r}", POOL + c if full else c, full=full)
            assign(DEFAULT_SEPS)
            agree(k, f"Gen 1{c}2", DEFAULT_SEPS, f"{c} as {r}, then restored")
            agree(k, "Gen 1:2,3-2.1;3", DEFAULT_SEPS, f"{c} as {r}, then restored")


TARGETS = [".;,-:", ";,:.-", "-;,.:", ",;-:.", "|/+=~", "\\\".:-"]


def orders(k, shard, n):
    start()
    i = 0
    for p in TARGETS if k.tier == "thorough" else TARGETS[:2] + TARGETS[-1:]:
        seps = dict(zip(ROLES, p))
        for o in itertools.permutations(ROLES):
            i += 1
            if i % n != shard:
                continue
            assign(DEFAULT_SEPS)
            assign(seps, o)
            probe(k, seps, f"from the defaults, in the order {o}", POOL, full=False)
            assign(DEFAULT_SEPS, o[::-1])
            probe(k, DEFAULT_SEPS, f"back to the defaults from {p}, in the order {o[::-1]}", POOL, full=False)
    k.sample(f"{p} in the order {o}")


def histories(k, depth, shard, n):
    """All sequences of single settings; each is judged whenever the roles are distinct; with and without a parse between settings."""
    start()
    moves = [(r, c) for r in ROLES for c in {DEFAULT_SEPS[r], "|", {"range": ":", "major": ",", "minor": ";", "std": "-", "alt": "\""}[r]}]
    moves.sort()
    i = 0
    for seq in itertools.product(moves, repeat=depth):
        i += 1
        if i % n != shard:
            continue
        for between in (False, True):
            assign(DEFAULT_SEPS)
            cur = dict(DEFAULT_SEPS)
            for r, c in seq:
                setattr(bible_data(), ATTR[r], c)
                cur[r] = c
                if between:
                    outcome("Gen 1:2,3-2.1;3")
            if len(set(cur.values())) == 5:
                probe(k, cur, f"{seq} parse between: {between}", POOL + "|", full=False)
    assign(DEFAULT_SEPS)
    probe(k, DEFAULT_SEPS, "restored", POOL)


def jobs(tier):
    out = shards("perms", perms, (POOL,), 16) + shards("single", single, ([c for c in string.punctuation if c != "_"] + list(OTHER), True), 4) + shards("more", single, (list(MORE), False), 4) + shards("orders", orders, (), 8)
    out += shards("hist1", histories, (1,), 1) + shards("hist2", histories, (2,), 4)
    if tier == "thorough":
        out += shards("perms2", perms, ("|/(*]^'",), 32) + shards("perms3", perms, ("–[?+$)@",), 32)
        out += shards("hist3", histories, (3,), 32)
    return out
