"""C08: NZB files are read faithfully and hostile ones are harmless."""
ID = "C08"
HARNESS = "c08"
LEVEL = "exploration"
RULE = ("one case = a generated list of files (subjects, dates, groups, segments with gaps, odd ids and sizes) rendered as an NZB document in a random of many equivalent XML spellings and parsed, compared with the list, then "
        "re-rendered in another element order and compared by content hash; 35 % are documents damaged by tag-level edits or tag soup, run for memory safety and internal consistency; non-trivial when a file with articles was written (or 20 bytes of damaged text)")
QUICK, THOROUGH = 150000, 2000000
FUZZ = 600
