"""C16: feed filters mean what the documentation says."""
ID = "C16"
HARNESS = "c16"
WRAP = ("time",)
LEVEL = "exploration"
RULE = ("one case = a generated feed item and a generated filter of 1-5 rules (all commands, options, reference patterns, nested groups, text/regex/numeric terms on all fields, "
        "comments, invalid rules), judged by an independent evaluator of the documented language; 15 % are arbitrary text, run for memory safety only; non-trivial when the filter "
        "has more than 3 characters and the documentation defines the verdict")
QUICK, THOROUGH = 800000, 8000000
