"""C01: article decoding returns exactly the posted bytes."""
ID = "C01"
HARNESS = "c01"
LEVEL = "exploration"
RULE = ("one case = one generated article (yEnc single/multi part, uuencoded, raw mode) with generated content, line length, escaping, headers, "
        "cut into generated reads and decoded by a chosen CPU implementation; non-trivial when the content is not empty and there are several reads")
QUICK, THOROUGH = 800000, 15000000
FUZZ = 300
