"""C37: text matching and encoding primitives obey their definitions."""
ID = "C37"
HARNESS = "c37"
LEVEL = "exploration"
RULE = ("one case = one of 16 kinds (masks and their positions, file extension lists, command lines, URLs, XML/JSON encoding and decoding, base64, hostile text in exact-size buffers, "
        "string classes against a model, gzip in pieces, dates, tokens, Latin-1, tags); non-trivial by kind: the input is not empty or trivial for that kind")
QUICK, THOROUGH = 2500000, 25000000
