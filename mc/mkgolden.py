"""One-off: writes golden.json, the frozen reference copy of the default Bible data (not run by any check)."""
import json, os, sys
sys.path.insert(0, "/repo/src")
import bibleref
from bibleref import data
g = {
    "order": [b.name for b in data.default_book_order],
    "names": {b.name: [v[0], v[1], v[2], list(v[3])] for b, v in data.default_name_data.items()},
    "max_verses": {b.name: list(v) for b, v in data.default_max_verses.items()},
    "verse_0s": {b.name: sorted(v) for b, v in data.default_verse_0s.items()},
    "seps": {"range_sep": "-", "major_list_sep": ";", "minor_list_sep": ",", "verse_sep_std": ":", "verse_sep_alt": "."},
}
json.dump(g, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "golden.json"), "w"), separators=(",", ":"), sort_keys=True)
print(len(g["order"]), sum(map(len, g["max_verses"].values())), sum(map(sum, g["max_verses"].values())), len(g["verse_0s"]["Psa"]))
