"""C02: a damaged article is never accepted as good, a good one never refused."""
ID = "C02"
HARNESS = "c02"
LEVEL = "exploration"
RULE = ("one case = one generated yEnc article with 1-3 generated damages (cut, bit/byte changes, drops, insertions, repeats, line operations, foreign articles, trailer edits, "
        "emptied data), or arbitrary bytes/tokens, cut into generated reads and decoded with CRC checking on; non-trivial when the text was really changed (or more than 20 arbitrary bytes)")
QUICK, THOROUGH = 800000, 15000000
FUZZ = 600
